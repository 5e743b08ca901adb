// package-dir: .
package main

import (
	"io"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// edit appends one of the usual changes to a copy of the history at any time
// after it; gone is the entry a deletion concerns.
func edit(who string, base []txlogs.Tx, entries ...string) (log []txlogs.Tx, kind int) {
	log = cpTxs(base)
	kind = verifv.Choose(who+" edit", 4)
	if kind == 0 {
		return log, kind
	}
	t := verifv.Int64(who + " time")
	verifv.Assume(verifv.And(t > syncT0+1000, t < syncT0+1000000))
	switch kind {
	case 1:
		v := verifv.String(who+" value", 1)
		verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
		log = append(log, txlogs.Tx{Time: t, Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: v})
	case 2:
		id := "new" + who
		log = append(log, txlogs.Tx{Time: t, Kind: txlogs.TxAdd, UUID: id}, txlogs.Tx{Time: t + 1, Kind: txlogs.TxSetKey, UUID: id, Key: blobformat.KeyName, Value: id})
	default:
		log = append(log, txlogs.Tx{Time: t, Kind: txlogs.TxDelete, UUID: entries[verifv.Choose(who+" deletes", len(entries))]})
	}
	return log, kind
}

// One remote in any state.
func Harness_Y01_one() {
	verifv.Bound("one remote, file or scp, that is missing, good, unreadable (five kinds of error over scp), damaged in four ways, encrypted with an unknown passphrase, or without a readable history; local and remote each with one change at any time after the common history (a value of any letter set, an entry added, the entry or the sync entry deleted) or none, or no common history; conflicts answered by restoring, deleting or aborting; passphrase prompts ended, interrupted, answered emptily or wrongly; push or pull only")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	r := &remote{id: "a", scp: verifv.Choose("scp", 2) == 1, status: verifv.Choose("status", remStates)}
	rs := []*remote{r}
	u, base := syncUI(rs)
	local, lk := edit("local", base, "e")
	rk := 0
	if r.status == remGood {
		r.log, rk = edit("remote", base, "e", "a")
		if verifv.Choose("fork", 2) == 1 {
			verifv.Assume(rk == 2 && lk < 2)
			r.log = r.log[len(base):]
		}
	} else {
		r.log = base
	}
	u.store.Log = cpTxs(local)
	place(rs)
	answer := verifv.Choose("answer", 4)
	merging := false
	ask(4, func(n int, prompt, said string) (string, error) {
		if has(prompt, "estore") || has(prompt, "(y/n)") {
			merging = true
			yes, no := "r", "d"
			if has(prompt, "(y/n)") {
				yes, no = "y", "n"
			}
			switch answer {
			case 0:
				return yes, nil
			case 1:
				return no, nil
			case 2:
				return "", ErrInterrupt
			}
			return "", io.EOF
		}
		switch answer {
		case 0:
			if n < 2 {
				return "wrong", nil
			}
			return "", nil
		case 1:
			return "", nil
		case 2:
			return "", ErrInterrupt
		}
		return "", io.EOF
	})
	push := verifv.Choose("push", 2) == 1
	verifv.ClearOutput()
	err := u.sync("", true, push)
	verifv.Assert(err == nil, "sync failed")
	out := verifv.Output()
	data, wrote := r.now()
	aborted := mentions(out, "aborting sync")
	verifv.Assert(!aborted || (merging && answer > 0), "sync was aborted without a reason")
	switch {
	case r.status != remGood:
		verifv.Assert(vSameLog(u.store.Log, local), "a remote that could not be read changed the local history")
		if r.status != remMissing {
			verifv.Assert(!wrote, "a remote copy that could not be read and merged was overwritten")
			verifv.Assert(mentions(out, "sync/a", ":") && (mentions(out, "error pulling") || mentions(out, "failed to decrypt") || mentions(out, "failed parsing")), "a remote that failed is not reported")
			verifv.Reach("left alone")
			return
		}
		verifv.Reach("missing")
	case aborted:
		verifv.Assert(!wrote, "an aborted sync overwrote the remote copy")
		verifv.Assert(vSameLog(u.store.Log, local), "an aborted sync changed the local history")
		verifv.Reach("aborted")
		return
	default:
		except := ""
		if merging {
			except = "e"
			if rk == 3 && lk != 3 && r.log[len(r.log)-1].UUID == "a" {
				except = "a"
			}
			verifv.Reach("conflict resolved")
		}
		verifv.Assert(holdsAll(u.store.Log, local, except), "sync lost a local edit")
		verifv.Assert(holdsAll(u.store.Log, r.log, except), "sync lost a remote edit")
	}
	_, ok := refState(u.store.Log)
	verifv.Assert(ok, "after the sync the history does not apply")
	if !push {
		verifv.Assert(!wrote, "a pull wrote the remote")
		return
	}
	gone := u.store.Snapshot["a"] == nil
	if !wrote {
		verifv.Assert(gone || vSameLog(r.log, u.store.Log), "sync reports success but the remote copy lacks something")
		verifv.Reach("not written")
		return
	}
	got := unsealed("pushed", data, ringOf(u))
	verifv.Assert(vSameLog(got, noHosts(u.store.Log)), "the remote copy is not the merged history")
	verifv.Reach("pushed")
}

// A target that is moved by what the sync brings in.
func Harness_Y01_moved() {
	verifv.Bound("two remotes (file or scp each), one of which holds an edit, made at any time, that gives a target another address; the file there (file or scp) was never read and holds an edit of its own; with or without a local edit")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	a := &remote{id: "a", scp: verifv.Choose("scp", 2) == 1, status: remGood}
	b := &remote{id: "b", scp: verifv.Choose("scp", 2) == 1, status: remGood}
	c := &remote{id: "c", scp: verifv.Choose("scp", 2) == 1, status: remGood}
	u, base := syncUI([]*remote{a, b})
	t := verifv.Int64("time")
	verifv.Assume(verifv.And(t > syncT0+1000, t < syncT0+1000000))
	which := []string{"a", "b"}[verifv.Choose("moved", 2)]
	a.log = append(cpTxs(base), txlogs.Tx{Time: t, Kind: txlogs.TxSetKey, UUID: which, Key: blobformat.KeyURL, Value: c.url()})
	b.log = cpTxs(base)
	c.ring = a.ring
	c.log = append(cpTxs(base), txlogs.Tx{Time: syncT0 + 5000, Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: "unseen"})
	u.store.Log = cpTxs(base)
	if verifv.Choose("mine", 2) == 1 {
		u.store.Log = append(u.store.Log, txlogs.Tx{Time: syncT0 + 6000, Kind: txlogs.TxSetKey, UUID: "e", Key: "m", Value: "m"})
	}
	local := cpTxs(u.store.Log)
	place([]*remote{a, b, c})
	ask(4, func(n int, prompt, said string) (string, error) { return "", io.EOF })
	verifv.Assert(u.sync("", true, true) == nil, "sync failed")
	verifv.Assert(holdsAll(u.store.Log, local, "") && holdsAll(u.store.Log, a.log, ""), "sync lost an edit")
	data, wrote := c.now()
	if wrote {
		got := unsealed("moved", data, ringOf(u))
		verifv.Assert(holdsAll(got, c.log, ""), "a remote copy that was never read was overwritten")
	}
	// the next sync finds it
	verifv.Assert(u.sync("", true, true) == nil, "sync failed")
	verifv.Assert(holdsAll(u.store.Log, c.log, ""), "the moved target's edits never arrive")
	data, _ = c.now()
	verifv.Assert(holdsAll(unsealed("moved", data, ringOf(u)), local, ""), "the moved target never gets the local edits")
	verifv.Reach("moved")
}
