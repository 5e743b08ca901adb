// package-dir: txlogs
package txlogs

import (
	"strconv"

	"github.com/aarondl/bpass/verifv"
)

// t03Log is a valid or invalid history with times.
func t03Log(n int) []Tx {
	log := []Tx{{Kind: TxAdd, UUID: "u0", Time: verifv.Int64("t")}}
	for i := verifv.Choose("len", n+1); i > 0; i-- {
		tx := symTx(verifv.Choose("kind", 4), 2)
		tx.Time = verifv.Int64("t")
		log = append(log, tx)
	}
	if verifv.Choose("empty", 2) == 1 {
		log = nil
	}
	return log
}

// The whole state any number of versions ago.
func Harness_T03_state() {
	n := verifv.Pick(3, 4)
	verifv.Bound("any history of 0..4 (quick) or 0..5 (thorough) records on two entries, valid or not, one-byte keys and values; every 64-bit number of versions")
	log := t03Log(n)
	s := &DB{Log: cpLog(log)}
	refreshed := verifv.Choose("refreshed", 2) == 1
	if refreshed {
		s.UpdateSnapshot()
	}
	ver := s.Version
	ago := int(verifv.Int64("ago"))
	var snap map[string]Entry
	var err error
	end := verifv.Catch(func() { snap, err = s.SnapshotAt(ago) })
	verifv.Assert(end == "", "looking back crashed")
	if verifv.Or(ago < 0, ago > len(log)) {
		verifv.Assert(err != nil, "a number of versions that history does not have was accepted")
		verifv.Reach("refused")
	} else {
		for k := 0; k <= len(log); k++ {
			if ago != k {
				continue
			}
			want, ok := refReplay(log[:len(log)-k])
			verifv.Assert((err == nil) == ok, "looking back fails exactly when that history does not apply")
			if ok {
				verifv.Assert(refSame(snap, want), "the state some versions ago is not what the history without its last records gives")
				// What was returned is a copy: changing it alters nothing.
				for _, e := range snap {
					e["zz"] = "zz"
				}
			}
			verifv.Reach("looked back")
		}
	}
	verifv.Assert(eqLog(s.Log, log) && s.Version == ver, "looking back changed the history")
	if want, ok := refReplay(log); ok {
		verifv.Assert(s.UpdateSnapshot() == nil && refSame(s.Snapshot, want), "looking back changed the current state")
	}
}

// One entry any number of its versions ago.
func Harness_T03_entry() {
	n := verifv.Pick(3, 4)
	verifv.Bound("any history of 0..4 (quick) or 0..5 (thorough) records on two entries, valid or not, one-byte keys and values; every 64-bit number of versions; entries of the history and an unknown one")
	log := t03Log(n)
	s := &DB{Log: cpLog(log)}
	if verifv.Choose("refreshed", 2) == 1 {
		s.UpdateSnapshot()
	}
	id := txIDs[verifv.Choose("entry", 3)]
	var mine []Tx
	last := int64(-1)
	for _, tx := range log {
		if tx.UUID == id {
			mine = append(mine, tx)
			last = tx.Time
		}
	}
	verifv.Assert(s.NVersions(id) == len(mine), "the number of versions is not that of the entry's records")
	verifv.Assert(s.LastUpdated(id) == last, "the last update time is not that of the entry's last record")
	ago := int(verifv.Int64("ago"))
	var e Entry
	var err error
	end := verifv.Catch(func() { e, err = s.EntrySnapshotAt(id, ago) })
	verifv.Assert(end == "", "looking back at an entry crashed")
	if verifv.Or(ago < 0, ago > len(mine)) {
		verifv.Assert(err != nil, "a number of versions the entry does not have was accepted")
		verifv.Reach("refused")
	} else {
		for k := 0; k <= len(mine); k++ {
			if ago != k {
				continue
			}
			want, ok := refReplay(mine[:len(mine)-k])
			i := -1
			if ok {
				i = refFind(want, id)
			}
			verifv.Assert((err == nil) == (i >= 0), "looking back at an entry fails exactly when it was not there")
			if err == nil {
				verifv.Assert(refSameEntry(e, want[i]), "an entry some versions ago is not what its history without the last records gives")
				e["zz"] = "zz"
				verifv.Reach("looked back")
			} else if ok {
				verifv.Assert(IsKeyNotFound(err) || ago == len(log), "the entry not existing yet is not reported as such")
			}
		}
	}
	verifv.Assert(eqLog(s.Log, log), "looking back at an entry changed the history")
	if want, ok := refReplay(log); ok {
		verifv.Assert(s.UpdateSnapshot() == nil && refSame(s.Snapshot, want), "looking back at an entry changed the current state")
	}
}

// Dropping the last records.
func Harness_T03_undo() {
	n := verifv.Pick(3, 4)
	verifv.Bound("any history of 0..4 (quick) or 0..5 (thorough) records on two entries, valid or not, one-byte keys and values, refreshed after any prefix; every 64-bit number of records to drop")
	log := t03Log(n)
	s := &DB{}
	cut := verifv.Choose("cut", len(log)+1)
	s.Log = append(s.Log, log[:cut]...)
	s.UpdateSnapshot()
	s.Log = append(s.Log, log[cut:]...)
	k := uint(verifv.Int64("n"))
	var err error
	end := verifv.Catch(func() { err = s.RollbackN(k) })
	verifv.Assert(end == "", "dropping records crashed")
	if k > uint(len(log)) {
		verifv.Assert(err != nil, "dropping more records than there are was accepted")
		verifv.Reach("refused")
	} else {
		verifv.Assert(err == nil, "dropping records that are there was refused")
		for i := 0; i <= len(log); i++ {
			if k == uint(i) {
				log = log[:len(log)-i]
				break
			}
		}
		verifv.Reach("dropped")
	}
	verifv.Assert(eqLog(s.Log, log), "dropping the last records does not leave exactly the earlier history")
	want, ok := refReplay(log)
	verifv.Assert((s.UpdateSnapshot() == nil) == ok, "after dropping records refreshing fails exactly when the history does not apply")
	if ok {
		verifv.Assert(refSame(s.Snapshot, want), "after dropping records the state is not what the earlier history gives")
	}
}

// Long histories.
func Harness_T03_long() {
	verifv.Bound("histories of 70 and 300 (thorough 2000) records on five entries, one with any one-byte value; 0, 1, 2, 64, half, all but one or all versions ago, for the whole, an entry and undoing")
	verifv.StepLimit(60000000)
	n := []int{70, 300, 2000}[verifv.Choose("len", verifv.Pick(2, 3))]
	v := verifv.String("val", 1)
	var log []Tx
	for i := 0; i < n; i++ {
		tx := Tx{Kind: TxSetKey, UUID: "u" + strconv.Itoa(i*i%5), Time: int64(i), Key: "k" + strconv.Itoa(i%3), Value: strconv.Itoa(i)}
		if i < 5 {
			tx = Tx{Kind: TxAdd, UUID: "u" + strconv.Itoa(i), Time: int64(i)}
		}
		if i == n/2+3 {
			tx.Value = v
		}
		log = append(log, tx)
	}
	s := &DB{Log: cpLog(log)}
	if verifv.Choose("refreshed", 2) == 1 {
		s.UpdateSnapshot()
	}
	agos := []int{0, 1, 2, 64, n / 2, n - 1, n}
	ago := agos[verifv.Choose("ago", len(agos))]
	switch verifv.Choose("how", 3) {
	case 0:
		snap, err := s.SnapshotAt(ago)
		want, _ := refReplay(log[:n-ago])
		verifv.Assert(err == nil && refSame(snap, want), "the state some versions ago is not what the history without its last records gives")
	case 1:
		id := "u" + strconv.Itoa(verifv.Choose("entry", 2)*4)
		var mine []Tx
		for _, tx := range log {
			if tx.UUID == id {
				mine = append(mine, tx)
			}
		}
		verifv.Assert(s.NVersions(id) == len(mine) && s.LastUpdated(id) == mine[len(mine)-1].Time, "an entry's versions or last change are not told right")
		e, err := s.EntrySnapshotAt(id, ago)
		if ago >= len(mine) {
			verifv.Assert(err != nil, "a version that never was is given")
			return
		}
		want, _ := refReplay(mine[:len(mine)-ago])
		verifv.Assert(err == nil && refSameEntry(e, want[0]), "an entry some versions ago is not what its history without the last records gives")
	default:
		verifv.Assert(s.RollbackN(uint(ago)) == nil, "undoing failed")
		verifv.Assert(eqLog(s.Log, log[:n-ago]), "undoing does not leave exactly the earlier history")
		want, _ := refReplay(log[:n-ago])
		verifv.Assert(s.UpdateSnapshot() == nil && refSame(s.Snapshot, want), "after undoing the state is another")
	}
	verifv.Reach("long")
}
