// package-dir: txlogs
package txlogs

import (
	"errors"
	"strings"

	"github.com/aarondl/bpass/verifv"
)

// txnOp does one operation inside (or before) a transaction and keeps the
// expected log alongside. It reports false when the choice makes no sense.
func txnOp(s *DB, ids *[]string, log *[]Tx) bool {
	rec := func(k TxKind, u, key, val string) {
		*log = append(*log, Tx{Time: verifv.Clock(), Kind: k, UUID: u, Key: key, Value: val})
	}
	alive := func(u string) bool {
		in := false
		for _, tx := range *log {
			if tx.UUID == u {
				in = tx.Kind != TxDelete
			}
		}
		return in
	}
	op := verifv.Choose("op", 5)
	if op == 0 {
		verifv.Assert(s.UpdateSnapshot() == nil, "refreshing failed")
		return true
	}
	if op == 1 {
		u, err := s.Add()
		verifv.Assert(err == nil, "adding failed")
		*ids = append(*ids, u)
		rec(TxAdd, u, "", "")
		return true
	}
	if len(*ids) == 0 {
		return false
	}
	u := (*ids)[verifv.Choose("which", len(*ids))]
	if !alive(u) {
		return false
	}
	switch op {
	case 2:
		k, v := letter("key"), letter("val")
		s.Set(u, k, v)
		rec(TxSetKey, u, k, v)
	case 3:
		k := letter("key")
		s.DeleteKey(u, k)
		rec(TxDeleteKey, u, k, "")
	case 4:
		s.Delete(u)
		rec(TxDelete, u, "", "")
	}
	return true
}

// Edits and views before, inside and after a transaction ended in every way.
func Harness_T02_atomic() {
	n := verifv.Pick(3, 4)
	verifv.Bound("a store that is empty or has one entry, 0..1 (quick) or 0..2 (thorough) operations, then a transaction of 0..3 (quick) or 0..4 (thorough) operations (add, set, delete key, delete entry, view), ended by rollback, commit, an error or success of its body, then 0..1 operations; any one-letter keys and values")
	s := &DB{}
	var log []Tx
	var ids []string
	if verifv.Choose("empty", 2) == 0 {
		u, _ := s.Add()
		ids = []string{u}
		log = cpLog(s.Log)
	}
	for i := verifv.Choose("before", verifv.Pick(2, 3)); i > 0; i-- {
		if !txnOp(s, &ids, &log) {
			return
		}
	}
	base := cpLog(log)
	nids := len(ids)
	n = verifv.Choose("inside", n+1)
	dead := false
	body := func() {
		for i := 0; i < n && !dead; i++ {
			dead = !txnOp(s, &ids, &log)
		}
	}
	bad := errors.New("no")
	committed := false
	switch verifv.Choose("end", 4) {
	case 0:
		s.Begin()
		body()
		s.Rollback()
	case 1:
		s.Begin()
		body()
		s.Commit()
		committed = true
	case 2:
		err := s.Do(func() error { body(); return bad })
		verifv.Assert(err == bad, "the transaction lost its body's error")
	case 3:
		err := s.Do(func() error { body(); return nil })
		verifv.Assert(err == nil, "a transaction whose body succeeded failed")
		committed = true
	}
	if dead {
		return
	}
	if !committed {
		log, ids = base, ids[:nids]
	}
	verifv.Assert(eqLog(s.Log, log), "after the transaction the history is not what it should be")
	if len(ids) > 0 && verifv.Choose("after", 2) == 1 {
		if !txnOp(s, &ids, &log) {
			return
		}
	}
	want, ok := refReplay(log)
	verifv.Assert(ok, "the harness wrote a bad history")
	verifv.Assert(s.UpdateSnapshot() == nil, "the history does not apply after the transaction")
	verifv.Assert(eqLog(s.Log, log), "the history is not what it should be")
	verifv.Assert(refSame(s.Snapshot, want), "the state after the transaction is not what the history gives")
	if _, err := s.Save(); err != nil {
		verifv.Assert(false, "saving was refused although the transaction is over")
	}
	if committed {
		verifv.Reach("committed")
	} else {
		verifv.Reach("rolled back")
	}
}

// Misuse: ending what was not begun, beginning twice, saving in between.
func Harness_T02_misuse() {
	verifv.Bound("every sequence of up to 5 begin, commit, rollback, edit and save calls, on an empty store or one entry")
	s := &DB{}
	u := "0"
	if verifv.Choose("empty", 2) == 0 {
		u, _ = s.Add()
	}
	want := cpLog(s.Log)
	var mark []Tx
	active := false
	for n := 5; n > 0; n-- {
		var f func()
		refused, begins := false, false
		switch verifv.Choose("call", 5) {
		case 0:
			f, refused, begins = s.Begin, active, true
			if !active {
				mark = cpLog(want)
			}
		case 1:
			f, refused = s.Commit, !active
		case 2:
			f, refused = s.Rollback, !active
			if active {
				want = cpLog(mark)
			}
		case 3:
			k := letter("key")
			s.Set(u, k, "v")
			want = append(want, Tx{Time: verifv.Clock(), Kind: TxSetKey, UUID: u, Key: k, Value: "v"})
			continue
		case 4:
			_, err := s.Save()
			verifv.Assert((err != nil) == active, "saving is refused exactly while a transaction is active")
			continue
		}
		end := verifv.Catch(f)
		if refused {
			verifv.Assert(strings.HasPrefix(end, "panic"), "starting twice or finishing what was not begun was not refused")
			verifv.Reach("refused")
		} else {
			verifv.Assert(end == "", "a proper transaction call was refused")
			active = begins
			verifv.Reach("accepted")
		}
		verifv.Assert(eqLog(s.Log, want), "the history changed unexpectedly")
	}
}

// Long transactions.
func Harness_T02_long() {
	verifv.Bound("a history of 3 or 100 records, then a transaction of 40 or 300 (thorough 2000) sets, adds and deletions, one of any letter, committed or rolled back, with looks in between; twice in a row")
	verifv.StepLimit(100000000)
	s := &DB{}
	u, err := s.Add()
	verifv.Assert(err == nil, "adding failed")
	before := []int{2, 99}[verifv.Choose("before", 2)]
	for i := 0; i < before; i++ {
		s.Set(u, "k", string(rune('a'+i%26)))
	}
	n := []int{40, 300, 2000}[verifv.Choose("inside", verifv.Pick(2, 3))]
	v := letter("val")
	looks := verifv.Choose("look", 2) == 1
	for k := 0; k < 2; k++ {
		base := cpLog(s.Log)
		s.Begin()
		var extra []string
		for i := 0; i < n; i++ {
			switch {
			case i%20 == 3:
				id, err := s.Add()
				verifv.Assert(err == nil, "adding failed")
				extra = append(extra, id)
			case i%45 == 30:
				s.Delete(extra[0])
				extra = extra[1:]
			case i == n/2:
				s.Set(u, "k", v)
			default:
				s.Set(u, "k"+string(rune('a'+i%9)), string(rune('a'+i%26)))
			}
			if looks && i%37 == 5 {
				verifv.Assert(s.UpdateSnapshot() == nil, "looking in a transaction failed")
			}
		}
		verifv.Assert(len(s.Log) == len(base)+n, "an edit in a transaction is not recorded")
		want := base
		if verifv.Choose("commit", 2) == 1 {
			want = cpLog(s.Log)
			s.Commit()
			verifv.Reach("committed")
		} else {
			s.Rollback()
			verifv.Reach("rolled back")
		}
		verifv.Assert(eqLog(s.Log, want), "after the transaction the history is not what it should be")
		st, ok := refReplay(want)
		verifv.Assert(ok && s.UpdateSnapshot() == nil && refSame(s.Snapshot, st), "the state after the transaction is not what the history gives")
	}
}

// Undoing steps inside a transaction.
func Harness_T02_undo() {
	n := verifv.Pick(2, 3)
	verifv.Bound("a store with one entry, viewed or not; a transaction of 1..2 (quick) or 1..3 (thorough) operations, then undoing any number of the records made in it, then 0..1 operations, ended by rollback or commit")
	s := &DB{}
	u, _ := s.Add()
	ids := []string{u}
	if verifv.Choose("viewed", 2) == 1 {
		verifv.Assert(s.UpdateSnapshot() == nil, "refreshing failed")
	}
	log := cpLog(s.Log)
	base := cpLog(log)
	s.Begin()
	for i := 1 + verifv.Choose("inside", n); i > 0; i-- {
		if !txnOp(s, &ids, &log) {
			return
		}
	}
	k := verifv.Choose("undo", len(log)-len(base)+1)
	verifv.Assert(s.RollbackN(uint(k)) == nil, "undoing failed")
	log = log[:len(log)-k]
	verifv.Assert(eqLog(s.Log, log), "undoing steps inside a transaction left another history")
	live := ids[:0]
	for _, tx := range log {
		if tx.Kind == TxAdd {
			live = append(live, tx.UUID)
		}
	}
	ids = live
	if verifv.Choose("more", 2) == 1 {
		if !txnOp(s, &ids, &log) {
			return
		}
	}
	if verifv.Choose("commit", 2) == 0 {
		s.Rollback()
		log = base
	} else {
		s.Commit()
	}
	verifv.Assert(eqLog(s.Log, log), "after the transaction the history is not what it should be")
	want, ok := refReplay(log)
	verifv.Assert(ok, "the harness wrote a bad history")
	verifv.Assert(s.UpdateSnapshot() == nil, "the history does not apply after the transaction")
	verifv.Assert(refSame(s.Snapshot, want), "the state after the transaction is not what the history gives")
	verifv.Reach("ended")
}
