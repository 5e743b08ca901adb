// package-dir: .
package main

import (
	"errors"
	"io"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// Two remotes.
func Harness_Y02_two() {
	verifv.Bound("two remotes, a file and an scp one (thorough also two scp) in both orders, each missing, in step, with an edit of its own at any time (any letter set or an entry added) or locked; a local edit at any time; pushing that fails for either scp remote; one sync, then the next one")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	a := &remote{id: "a"}
	b := &remote{id: "b", scp: true}
	if verifv.Pick(0, 1) == 1 {
		a.scp = verifv.Choose("scp a", 2) == 1
	}
	rs := []*remote{a, b}
	if verifv.Choose("b first", 2) == 1 {
		rs = []*remote{b, a}
	}
	u, base := syncUI(rs)
	local, _ := edits("local", base)
	for _, r := range rs {
		r.status = []int{remGood, remMissing, remLocked}[verifv.Choose("status "+r.id, 3)]
		r.log = base
		if r.status == remGood {
			r.log, _ = edits(r.id, base)
		}
		if r.scp && verifv.Choose("send fails "+r.id, 2) == 1 {
			r.sendErr = errors.New("disk full there")
		}
	}
	for i, l := range [][]txlogs.Tx{local, a.log, b.log} {
		for j, m := range [][]txlogs.Tx{local, a.log, b.log} {
			if i < j && len(l) > len(base) && len(m) > len(base) {
				verifv.Assume(l[len(base)].Time != m[len(base)].Time)
				verifv.Assume(l[len(base)].Time+1 != m[len(base)].Time)
				verifv.Assume(l[len(base)].Time != m[len(base)].Time+1)
			}
		}
	}
	u.store.Log = cpTxs(local)
	place(rs)
	script()
	verifv.ClearOutput()
	verifv.Assert(u.sync("", true, true) == nil, "sync failed")
	out := verifv.Output()
	verifv.Assert(holdsAll(u.store.Log, local, ""), "sync lost a local edit")
	_, ok := refState(u.store.Log)
	verifv.Assert(ok, "after the sync the history does not apply")
	failed := false
	for _, r := range rs {
		data, wrote := r.now()
		if r.status == remLocked {
			verifv.Assert(!wrote, "a remote copy that could not be read was overwritten")
			verifv.Assert(mentions(out, "failed to decrypt", r.name), "a remote that could not be read is not reported")
			failed = true
			verifv.Reach("locked")
			continue
		}
		if r.status == remGood {
			verifv.Assert(holdsAll(u.store.Log, r.log, ""), "sync lost a remote edit")
		}
		if r.sendErr != nil && !wrote {
			if r.status == remGood && vSameLog(r.log, u.store.Log) {
				failed = true // whether sending is tried then does not matter
				verifv.Reach("nothing to send")
				continue
			}
			verifv.Assert(mentions(out, "error pushing", r.name), "a remote that could not be written is not reported")
			failed = true
			verifv.Reach("send failed")
			continue
		}
		verifv.Assert(r.status == remGood || wrote, "a remote that was missing is not written")
		if wrote {
			r.log = unsealed("remote "+r.id, data, ringOf(u))
			verifv.Reach("written")
		}
		verifv.Assert(vSameLog(r.log, u.store.Log), "after the sync remote "+r.id+" does not hold the merged history")
		r.status = remGood
	}
	verifv.Assert(failed || !mentions(out, "error"), "a sync that worked reports an error")
	// Again: everything is in step.
	for _, r := range rs {
		r.sendErr = nil
	}
	before := cpTxs(u.store.Log)
	script()
	verifv.ClearOutput()
	verifv.Assert(u.sync("", true, true) == nil, "the next sync failed")
	verifv.Assert(vSameLog(u.store.Log, before), "a sync with nothing new changed the history")
	for _, r := range rs {
		if r.status == remLocked {
			continue
		}
		data, _ := r.now()
		verifv.Assert(vSameLog(unsealed("remote "+r.id, data, ringOf(u)), before), "after the next sync remote "+r.id+" still lacks something")
	}
}

// edits is edit without deletions.
func edits(who string, base []txlogs.Tx) (log []txlogs.Tx, kind int) {
	log = cpTxs(base)
	kind = verifv.Choose(who+" edit", 3)
	if kind == 0 {
		return log, kind
	}
	t := verifv.Int64(who + " time")
	verifv.Assume(verifv.And(t > syncT0+1000, t < syncT0+1000000))
	if kind == 1 {
		v := verifv.String(who+" value", 1)
		verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
		return append(log, txlogs.Tx{Time: t, Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: v}), kind
	}
	id := "new" + who
	return append(log, txlogs.Tx{Time: t, Kind: txlogs.TxAdd, UUID: id}, txlogs.Tx{Time: t + 1, Kind: txlogs.TxSetKey, UUID: id, Key: blobformat.KeyName, Value: id}), kind
}

// An abort after one of two remotes was merged already.
func Harness_Y02_abort() {
	verifv.Bound("two remotes with an edit each at any time, the other of which deletes an entry changed locally; the conflict is left by interrupt or end of input; both orders")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	a := &remote{id: "a", status: remGood}
	b := &remote{id: "b", status: remGood, scp: true}
	rs := []*remote{a, b}
	if verifv.Choose("b first", 2) == 1 {
		rs = []*remote{b, a}
	}
	u, base := syncUI(rs)
	local := append(cpTxs(base), txlogs.Tx{Time: syncT0 + 1200, Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: "mine"})
	a.log, _ = edits("a", base)
	b.log = append(cpTxs(base), txlogs.Tx{Time: syncT0 + 1000, Kind: txlogs.TxDelete, UUID: "e"})
	u.store.Log = cpTxs(local)
	if verifv.Choose("no snapshot", 2) == 0 {
		verifv.Assert(u.store.UpdateSnapshot() == nil, "the history does not apply")
	}
	place(rs)
	var stop error = ErrInterrupt
	if verifv.Choose("end", 2) == 1 {
		stop = io.EOF
	}
	asked := 0
	ask(10, func(n int, prompt, said string) (string, error) {
		verifv.Assert(has(prompt, "estore"), "an unexpected question: "+prompt)
		asked++
		return "", stop
	})
	ring := ringOf(u)
	verifv.ClearOutput()
	verifv.Assert(u.sync("", true, true) == nil, "sync failed")
	verifv.Assert(asked == 1, "the conflict was not put to the user once")
	verifv.Assert(vSameLog(u.store.Log, local), "an aborted sync changed the local history")
	want, _ := refState(local)
	verifv.Assert(storeIs(u.store, want), "after an aborted sync the entries shown are not the local ones")
	got := ringOf(u)
	verifv.Assert(got.pass == ring.pass && verifv.EqB(got.key, ring.key) && verifv.EqB(got.salt, ring.salt), "an aborted sync changed the credentials")
	for _, r := range rs {
		_, wrote := r.now()
		verifv.Assert(!wrote, "an aborted sync wrote a remote")
	}
	verifv.Assert(mentions(verifv.Output(), "aborting sync"), "an aborted sync is not reported")
	verifv.Reach("aborted")
}

// What changes credentials on one side while the other has at most an edit.
func Harness_Y02_credentials() {
	verifv.Bound("a file of 0..2 users shared with one remote; on one side a change of credentials (passphrase of the own or another user, rekey, rekeyall, first or further user added, a user or the last user removed) before or after an edit or nothing on the other side; whoever syncs knows the passphrase, is asked and tells it, or cannot")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	n := verifv.Choose("users", 3)
	now := syncT0
	tick := func() { now += 1000000; verifv.SetClock(now) }
	tick()
	var cs []cred
	u := newFile("pw")
	if n == 0 {
		cs = []cred{{"", "pw"}}
	}
	for i := 0; i < n; i++ {
		cs = append(cs, cred{[]string{"ann", "bo"}[i], "pw"})
		typing("pw", "pw")
		tick()
		verifv.Assert(u.adduser(cs[i].user) == nil, "adduser failed")
	}
	tick()
	id, err := u.store.New("sync/a")
	verifv.Assert(err == nil, "no sync entry")
	u.store.DB.Set(id, blobformat.KeySync, "true")
	u.store.DB.Set(id, blobformat.KeyURL, "file:///r/a")
	verifv.Assert(u.saveBlob() == nil, "the file cannot be saved")
	common, _ := verifv.GetFile(testFile)
	verifv.PutDir("/r")

	me, actor := 0, 0
	if n == 2 {
		me = verifv.Choose("me", 2)
		actor = me
	}
	after := append([]cred(nil), cs...)
	mine := me // which of them is this session's user
	changed := true
	change := func(u *uiContext) {
		tick()
		typing("nw", "nw")
		switch op := verifv.Choose("change", 8); {
		case op == 0:
			changed = false
		case op == 1:
			verifv.Assert(u.passwd("") == nil, "passwd failed")
			after[actor].pass = "nw"
		case op == 2:
			verifv.Assert(u.rekey("") == nil, "rekey failed")
		case op == 3 && n == 2:
			verifv.Assert(u.passwd(cs[1-actor].user) == nil, "passwd failed")
			after[1-actor].pass = "nw"
		case op == 4 && n > 0:
			script("y")
			verifv.ClearOutput()
			verifv.Assert(u.rekeyAll() == nil, "rekeyall failed")
			for i := range after {
				after[i].pass = shownPass(after[i].user)
			}
		case op == 5:
			verifv.Assert(u.adduser("cy") == nil, "adduser failed")
			if n == 0 {
				after[0].user = "cy"
			} else {
				after = append(after, cred{"cy", "nw"})
			}
		case op == 6 && n > 0:
			k := (actor + 1) % n
			script("user/" + cs[k].user)
			verifv.Assert(u.deleteEntry("user/"+cs[k].user) == nil, "rm failed")
			after = append(after[:k], after[k+1:]...)
			if k == me {
				mine = -1
			} else if k < me {
				mine--
			}
			if n == 1 {
				after = []cred{{"", "pw"}}
				mine = 0
			}
		case op == 7 && n > 0:
			script()
			verifv.Assert(u.rename("user/"+cs[actor].user, "user/di") == nil, "mv failed")
			after[actor].user = "di"
		default:
			verifv.Assume(false)
		}
		verifv.Assert(u.saveBlob() == nil, "the changed file cannot be saved")
	}
	edit := func(u *uiContext) {
		tick()
		if verifv.Choose("edit", 2) == 1 {
			_, err := u.store.New("new")
			verifv.Assert(err == nil, "an entry cannot be added")
		}
		verifv.Assert(u.saveBlob() == nil, "the edited file cannot be saved")
	}
	remoteChanged := verifv.Choose("remote changed", 2) == 1
	there, here := edit, change
	if remoteChanged {
		there, here = change, edit
		if n == 2 {
			actor = verifv.Choose("actor", 2)
		}
	}
	first := verifv.Choose("remote first", 2) == 1
	var remoteLog, localLog []txlogs.Tx
	var remote []byte
	open := func(f func(u *uiContext), as int) {
		verifv.PutFile(testFile, append([]byte(nil), common...))
		u = reopen(cs[as])
		f(u)
	}
	doRemote := func() {
		open(there, actor)
		remote, _ = verifv.GetFile(testFile)
		remoteLog = cpTxs(u.store.Log)
	}
	if first {
		doRemote()
		open(here, me)
	} else {
		open(here, me)
		local, _ := verifv.GetFile(testFile)
		keep := u
		doRemote()
		verifv.PutFile(testFile, local)
		u = keep
	}
	localLog = cpTxs(u.store.Log)
	verifv.PutFile("/r/a", append([]byte(nil), remote...))
	tick()

	// What opens the remote copy as far as this session's user knows.
	key := cs[me]
	if remoteChanged && mine >= 0 {
		key = after[mine]
	}
	tells := verifv.Choose("tells", 2) == 1
	aborted, useRemote, again := false, false, false
	ask(6, func(n int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "use remote credentials"):
			useRemote = verifv.Choose("use remote", 2) == 1
			return []string{"n", "y"}[verifv.IteI(useRemote, 1, 0)], nil
		case !tells || again:
			aborted = true
			return "", []error{io.EOF, ErrInterrupt}[verifv.Choose("stop", 2)]
		case has(prompt, "sync/a user: "):
			return key.user, nil
		case has(prompt, "sync/a passphrase: "):
			again = true
			return key.pass, nil
		}
		verifv.Assert(false, "an unexpected question: "+prompt)
		return "", io.EOF
	})
	ring := ringOf(u)
	verifv.ClearOutput()
	verifv.Assert(u.sync("", true, true) == nil, "sync failed")
	got, _ := verifv.GetFile("/r/a")
	if aborted {
		verifv.Assert(verifv.EqB(got, remote), "a remote copy that could not be opened was overwritten")
		verifv.Assert(vSameLog(u.store.Log, localLog), "a remote that could not be opened changed the local history")
		now := ringOf(u)
		verifv.Assert(now.user == ring.user && now.pass == ring.pass && verifv.EqB(now.key, ring.key) && verifv.EqB(now.master, ring.master), "a remote that could not be opened changed the credentials")
		verifv.Reach("not told")
		return
	}
	verifv.Assert(holdsAll(u.store.Log, localLog, ""), "sync lost a local edit")
	verifv.Assert(holdsAll(u.store.Log, remoteLog, ""), "sync lost a remote edit")
	want := after
	if n == 0 && after[0].user == "" {
		// A single-user file has no record of the change: the side with the
		// latest entry wins, and the user is asked when there is none.
		wins := !remoteChanged
		if l, r := localLog[len(localLog)-1].Time, remoteLog[len(remoteLog)-1].Time; l == r {
			wins = remoteChanged == useRemote
		} else if remoteChanged {
			wins = l < r
		} else {
			wins = r < l
		}
		if !wins {
			want = []cred{{"", "pw"}}
		}
	}
	openableAfterSave("local file after the sync", u, want)
	verifv.PutFile(testFile, append([]byte(nil), got...))
	openable("remote copy after the sync", u, want...)
	if mine >= 0 {
		typing("", "")
		verifv.Assert((u.user == want[mine].user || len(u.master) == 0) && u.pass == want[mine].pass, "after the sync the session does not remember its user's credentials")
		verifv.Assert(u.rekey("") == nil, "rekey failed after the sync")
		openableAfterSave("after a rekey", u, want)
	}
	if changed {
		verifv.Reach("changed")
	}
}

// shownPass is the passphrase shown for that user.
func shownPass(user string) string {
	words := strings.Fields(verifv.Output())
	for k, w := range words {
		if w == user+":" && k+1 < len(words) {
			return words[k+1]
		}
	}
	verifv.Assert(false, "the new passphrase of "+user+" is not shown")
	return ""
}

// Many remotes.
func Harness_Y02_many() {
	verifv.Bound("7 (thorough 30) remotes, files and scp ones, each in step, with an edit of its own, missing, or locked, the first, middle or last one's edit any letter; two syncs")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(200000000)
	n := verifv.Pick(7, 30)
	var rs []*remote
	for i := 0; i < n; i++ {
		rs = append(rs, &remote{id: "r" + string(rune('A'+i)), scp: i%2 == 1})
	}
	u, base := syncUI(rs)
	first := verifv.Choose("first", 3)
	v := verifv.String("value", 1)
	verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
	at := []int{0, n / 2, n - 1}[verifv.Choose("at", 3)]
	for i, r := range rs {
		r.status = []int{remGood, remMissing, remLocked, remGood, remGood}[(i+first)%5]
		r.log = cpTxs(base)
		if i == at {
			r.status = remGood
		}
		if r.status == remGood && ((i+first)%5 != 4 || i == at) {
			val := "x" + r.id
			if i == at {
				val = v
			}
			r.log = append(r.log, txlogs.Tx{Time: syncT0 + 1000 + int64(i*7%n), Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: val})
		}
	}
	local := append(cpTxs(base), txlogs.Tx{Time: syncT0 + 2000, Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: "mine"})
	u.store.Log = cpTxs(local)
	place(rs)
	for k := 0; k < 2; k++ {
		script()
		verifv.ClearOutput()
		verifv.Assert(u.sync("", true, true) == nil, "sync failed")
		out := verifv.Output()
		verifv.Assert(holdsAll(u.store.Log, local, ""), "sync lost a local edit")
		_, ok := refState(u.store.Log)
		verifv.Assert(ok, "after the sync the history does not apply")
		for _, r := range rs {
			data, wrote := r.now()
			if r.status == remLocked {
				verifv.Assert(!wrote, "a remote copy that could not be read was overwritten")
				verifv.Assert(mentions(out, "failed to decrypt", r.name), "a remote that could not be read is not reported")
				continue
			}
			if r.status == remGood {
				verifv.Assert(holdsAll(u.store.Log, r.log, ""), "sync lost a remote edit")
			}
			verifv.Assert(vSameLog(unsealed("remote "+r.id, data, ringOf(u)), u.store.Log), "after the sync remote "+r.id+" does not hold the merged history")
		}
		local = cpTxs(u.store.Log)
	}
	verifv.Reach("in step")
}
