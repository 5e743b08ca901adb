// package-dir: txlogs
package txlogs

import "github.com/aarondl/bpass/verifv"

// Each edit appends exactly the record it describes and touches nothing else.
func Harness_T05_append() {
	n := verifv.Pick(4, 5)
	verifv.Bound("a history of 0..1 records (with spare capacity shared with an older copy or not), then every sequence of 4 (quick) or 5 (thorough) add, set, delete key, delete and refresh calls with keys and values of 0..2 any bytes, at any increasing times")
	verifv.ClockSymbolic()
	s := &DB{}
	s.Log = make([]Tx, 0, verifv.Choose("cap", 2)*8)
	if verifv.Choose("start", 2) == 1 {
		s.Log = append(s.Log, Tx{Kind: TxAdd, UUID: "u0", Time: 1})
	}
	var ids []string
	for _, tx := range s.Log {
		ids = append(ids, tx.UUID)
	}
	for ; n > 0; n-- {
		before := cpLog(s.Log)
		t0 := verifv.Clock()
		var want Tx
		op := verifv.Choose("op", 5)
		if op > 0 && len(ids) == 0 {
			return
		}
		switch op {
		case 0:
			id, err := s.Add()
			verifv.Assert(err == nil && id != "", "adding failed")
			for _, o := range ids {
				verifv.Assert(o != id, "a new entry got the identifier of another")
			}
			ids = append(ids, id)
			want = Tx{Kind: TxAdd, UUID: id}
		case 1:
			want = Tx{Kind: TxSetKey, UUID: ids[verifv.Choose("which", len(ids))], Key: verifv.String("key", verifv.Choose("klen", 3)), Value: verifv.String("val", verifv.Choose("vlen", 3))}
			s.Set(want.UUID, want.Key, want.Value)
		case 2:
			want = Tx{Kind: TxDeleteKey, UUID: ids[verifv.Choose("which", len(ids))], Key: verifv.String("key", verifv.Choose("klen", 3))}
			s.DeleteKey(want.UUID, want.Key)
		case 3:
			want = Tx{Kind: TxDelete, UUID: ids[verifv.Choose("which", len(ids))]}
			s.Delete(want.UUID)
		case 4:
			s.UpdateSnapshot()
			verifv.Assert(eqLog(s.Log, before), "refreshing wrote to the history")
			continue
		}
		verifv.Assert(len(s.Log) == len(before)+1, "an edit did not append exactly one record")
		verifv.Assert(eqLog(s.Log[:len(before)], before), "an edit changed an earlier record")
		got := s.Log[len(before)]
		verifv.Assert(verifv.And(got.Time > t0, got.Time <= verifv.Clock()), "a record does not carry the current time")
		want.Time = got.Time
		verifv.Assert(eqTx(got, want), "the record is not the edit that was made")
		verifv.Reach("recorded")
	}
}

// A failing identifier source is an error that records nothing.
func Harness_T05_refused() {
	verifv.Bound("adding when the identifier source fails, on an empty store and on one with an entry")
	s := &DB{}
	if verifv.Choose("start", 2) == 1 {
		s.Add()
	}
	before := cpLog(s.Log)
	verifv.UUIDFault = true
	id, err := s.Add()
	verifv.Assert(err != nil && id == "", "an entry was added although no identifier could be made")
	verifv.Assert(eqLog(s.Log, before), "a refused edit was recorded")
	verifv.Reach("refused")
}

// Taking the history apart (transactions, undo) never lets a later edit
// overwrite records that a copy of the history still holds.
func Harness_T05_undo() {
	verifv.Bound("1..3 sets, some of them in a rolled back or committed transaction or undone, then 1..2 more sets; any one-letter keys and values")
	s := &DB{}
	id, _ := s.Add()
	want := cpLog(s.Log)
	set := func() Tx {
		k, v := letter("key"), letter("val")
		s.Set(id, k, v)
		return Tx{Time: verifv.Clock(), Kind: TxSetKey, UUID: id, Key: k, Value: v}
	}
	for i := 1 + verifv.Choose("sets", 3); i > 0; i-- {
		switch verifv.Choose("how", 4) {
		case 0:
			want = append(want, set())
		case 1:
			s.Begin()
			set()
			s.Rollback()
		case 2:
			s.Begin()
			want = append(want, set())
			s.Commit()
		case 3:
			set()
			verifv.Assert(s.RollbackN(1) == nil, "undoing failed")
		}
	}
	for i := 1 + verifv.Choose("more", 2); i > 0; i-- {
		want = append(want, set())
	}
	verifv.Assert(eqLog(s.Log, want), "the history is not exactly the accepted edits")
	verifv.Reach("kept")
}
