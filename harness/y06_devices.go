// package-dir: .
package main

import (
	"errors"

	"golang.org/x/crypto/ssh"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// device is one machine with its own copy and clock.
type device struct {
	u     *uiContext
	skew  int64
	edits int
}

// y06World is some devices that share remotes.
type y06World struct {
	d    []*device
	rs   []*remote
	now  int64
	made []txlogs.Tx // every record any device made
	base []txlogs.Tx
	mid  func() // runs once while an upload is under way
	own  []string
	only string // sync with that remote only

	dropped func(tx txlogs.Tx) bool // records an answer removed
}

func y06Make(n int, rs []*remote) *y06World {
	w := &y06World{rs: rs, now: syncT0 + 1000000, own: make([]string, n)}
	for i := 0; i < n; i++ {
		u, base := syncUI(rs)
		u.store.Log = cpTxs(base)
		if i > 0 { // the same file
			x := w.d[0].u
			u.user, u.pass, u.key, u.salt = x.user, x.pass, x.key, x.salt
		}
		w.base = base
		w.d = append(w.d, &device{u: u})
	}
	for _, r := range rs {
		r.ring, r.log = ringOf(w.d[0].u), cpTxs(w.base)
	}
	place(rs)
	send := verifv.ScpSend
	verifv.ScpSend = func(hostport string, c *ssh.ClientConfig, name string, mode int, data []byte) error {
		if f := w.mid; f != nil {
			w.mid = nil
			f()
		}
		err := send(hostport, c, name, mode, data)
		for _, r := range rs {
			if len(r.sent) > 0 {
				r.status = remGood
			}
		}
		return err
	}
	return w
}

// edit makes the next change on a device: a value, an entry of its own, the
// removal of a field, of that entry.
func (w *y06World) edit(i int) {
	d := w.d[i]
	w.now += 1000000
	verifv.SetClock(w.now + d.skew)
	s := d.u.store
	n := len(s.Log)
	who := string(rune('A' + i))
	var err error
	switch d.edits % 4 {
	case 0:
		v := "v"
		if i == 0 && d.edits == 0 {
			v = verifv.String("value "+who, 1)
			verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
		}
		err = s.Set("e", "k", v)
	case 1:
		w.own[i], err = s.New("own/" + who)
	case 2:
		err = s.Set(w.own[i], "note", who)
	case 3:
		s.Delete(w.own[i])
	}
	d.edits++
	verifv.Assert(err == nil, "an edit failed")
	verifv.Assert(s.UpdateSnapshot() == nil, "an edit does not apply")
	verifv.Assert(len(s.Log) > n, "an edit was not recorded")
	w.made = append(w.made, s.Log[n:]...)
}

func (w *y06World) sync(i int) {
	w.now += 1000000
	verifv.SetClock(w.now + w.d[i].skew)
	before := cpTxs(w.d[i].u.store.Log)
	verifv.Assert(w.d[i].u.sync(w.only, len(w.only) == 0, true) == nil, "sync failed")
	for _, tx := range before {
		if w.dropped == nil || !w.dropped(tx) {
			verifv.Assert(holds(w.d[i].u.store.Log, tx), "a sync dropped what the device already had")
		}
	}
}

// settle lets every device sync, and again until each could hear of the others,
// and then nobody has anything the others do not.
func (w *y06World) settle() {
	w.mid = nil
	for i := range w.d {
		w.sync(i)
	}
	for i := range w.d[1:] {
		w.sync(i)
	}
	want := 0
	for _, l := range [][]txlogs.Tx{w.base, w.made} {
		for _, tx := range l {
			if w.dropped == nil || !w.dropped(tx) {
				want++
				for _, d := range w.d {
					verifv.Assert(holds(d.u.store.Log, tx), "an edit made on one device never reached another")
				}
			}
		}
	}
	for _, d := range w.d {
		verifv.Assert(len(d.u.store.Log) == want, "a device holds something that nobody did, or something twice")
		verifv.Assert(vSameLog(d.u.store.Log, w.d[0].u.store.Log), "devices that synced hold different histories")
		st, ok := refState(d.u.store.Log)
		verifv.Assert(ok, "a device's history does not apply")
		for id, e := range d.u.store.Snapshot {
			for k, v := range e {
				verifv.Assert(st[id] != nil && verifv.EqS(st[id][k], v), "a device shows something its history does not hold")
			}
		}
		verifv.Assert(len(st) == len(d.u.store.Snapshot), "a device shows other entries than its history holds")
	}
	for _, r := range w.rs {
		data, _ := r.now()
		verifv.Assert(vSameLog(unsealed("remote "+r.id, data, ringOf(w.d[0].u)), w.d[0].u.store.Log), "remote "+r.id+" does not hold what the devices hold")
	}
	verifv.Reach("settled")
}

// Two devices and one remote, every order of edits and syncs.
func Harness_Y06_two() {
	n := verifv.Pick(3, 5)
	verifv.Bound("two devices with one shared scp remote (missing at first, or there): every sequence of 3 (thorough 5) steps, each an edit on either device (any letter set, an entry added, edited, deleted), a sync on either device, or one whose upload is under way while the other edits and syncs; the second device's clock behind or ahead; then one syncs, the other, and the first again")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(60000000)
	r := &remote{id: "a", scp: true, status: []int{remGood, remMissing}[verifv.Choose("remote", 2)]}
	w := y06Make(2, []*remote{r})
	w.d[1].skew = []int64{-5000500, 5000500}[verifv.Choose("clock", 2)]
	for i := 0; i < n; i++ {
		switch verifv.Choose("step", 6) {
		case 0:
			w.edit(0)
		case 1:
			w.edit(1)
		case 2:
			w.sync(0)
		case 3:
			w.sync(1)
		case 4:
			w.mid = func() { w.edit(1); w.sync(1) }
			w.sync(0)
			w.mid = nil
		case 5:
			w.mid = func() { w.edit(0); w.sync(0) }
			w.sync(1)
			w.mid = nil
		}
	}
	w.settle()
}

// Three devices, two remotes, uploads that fail.
func Harness_Y06_three() {
	n := verifv.Pick(2, 4)
	verifv.Bound("three devices that made one edit each (any letter in one of them), and two remotes, a file and an scp one, the scp one (thorough both) missing or there; every sequence of 2 (thorough 4) syncs, each on any device, with both or only one of the remotes, uploads to the scp one failing or not; then each syncs, and the first two again")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(60000000)
	status := []int{remGood, remMissing}
	a := &remote{id: "a", scp: true, status: status[verifv.Choose("remote a", 2)]}
	b := &remote{id: "b", status: status[verifv.Choose("remote b", verifv.Pick(1, 2))]}
	w := y06Make(3, []*remote{a, b})
	w.d[1].skew, w.d[2].skew = -5000500, 3000300
	for i := range w.d {
		w.edit(i)
	}
	for i := 0; i < n; i++ {
		d := verifv.Choose("device", 3)
		w.only = ""
		switch verifv.Choose("which", 4) {
		case 1:
			w.only = a.name
		case 2:
			w.only = b.name
		case 3:
			a.sendErr = errors.New("connection reset")
		}
		w.sync(d)
		a.sendErr = nil
	}
	w.only = ""
	w.settle()
}

// One device deletes an entry that another edits; every question gets the same answer.
func Harness_Y06_conflict() {
	n := verifv.Pick(2, 3)
	verifv.Bound("two or three devices with one remote: the first deletes an entry, the second edits it (any letter) twice, before, around or after that by their clocks, the third edits another; every sequence of 2 (thorough 3) syncs, an upload overlapped by a sync of the next device or not; the question asked is always answered with restore, or always with delete; then all sync until each heard of the others")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(60000000)
	r := &remote{id: "a", scp: true, status: remGood}
	w := y06Make(2+verifv.Choose("third", 2), []*remote{r})
	restore := verifv.Choose("restore", 2) == 0
	asked := 0
	ask(40, func(n int, prompt, said string) (string, error) {
		asked++
		if restore {
			return "r", nil
		}
		return "D", nil
	})
	e := "e"
	del := func(i int, at int64) txlogs.Tx {
		verifv.SetClock(syncT0 + at)
		s := w.d[i].u.store
		s.Delete(e)
		verifv.Assert(s.UpdateSnapshot() == nil, "a deletion does not apply")
		return s.Log[len(s.Log)-1]
	}
	set := func(i int, at int64, id, v string) {
		verifv.SetClock(syncT0 + at)
		s := w.d[i].u.store
		n := len(s.Log)
		s.DB.Set(id, "k", v)
		verifv.Assert(s.UpdateSnapshot() == nil, "an edit does not apply")
		w.made = append(w.made, s.Log[n:]...)
	}
	times := [][2]int64{{2000000, 3000000}, {2000000, 5000000}, {5000000, 6000000}}[verifv.Choose("order", 3)]
	first := del(0, 4000000)
	w.made = append(w.made, first)
	v := verifv.String("value", 1)
	verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
	set(1, times[0], e, v)
	set(1, times[1], e, "w")
	if len(w.d) == 3 {
		set(2, 4500000, "a", "x")
	}
	clash := times[1] > 4000000
	w.dropped = func(tx txlogs.Tx) bool {
		if !clash || tx.UUID != e {
			return false
		}
		if restore {
			return tx.Kind == txlogs.TxDelete
		}
		return tx.Time > first.Time
	}
	w.now = syncT0 + 10000000
	for i := 0; i < n; i++ {
		d := verifv.Choose("device", len(w.d))
		if verifv.Choose("overlap", 2) == 1 {
			w.mid = func() { w.sync((d + 1) % len(w.d)) }
		}
		w.sync(d)
		w.mid = nil
	}
	w.settle()
	for i := range w.d {
		w.sync(i)
	}
	verifv.Assert(clash == (asked > 0), "a question was asked for nothing, or none at all")
	st, _ := refState(w.d[0].u.store.Log)
	verifv.Assert((st[e] != nil) == (clash && restore), "the answer was not followed")
	if clash && restore {
		verifv.Assert(verifv.EqS(st[e]["k"], "w"), "the restored entry lacks the edit")
		verifv.Reach("restored")
	}
}
