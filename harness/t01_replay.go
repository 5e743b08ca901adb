// package-dir: txlogs
package txlogs

import "github.com/aarondl/bpass/verifv"

// Every log, refreshed at every point: incremental = from scratch = replay.
func Harness_T01_log() {
	n := verifv.Pick(4, 5)
	verifv.Bound("a first entry followed by up to 4 (quick) or 5 (thorough) records of any kind on two entries with any one-byte keys and values; valid and invalid histories; refreshed after any prefix, then after the rest")
	log := []Tx{{Kind: TxAdd, UUID: "u0"}}
	for i := verifv.Choose("len", n+1); i > 0; i-- {
		log = append(log, symTx(verifv.Choose("kind", 4), 2))
	}
	t01Check(log)
}

// The same with texts of several lengths, the empty one included.
func Harness_T01_texts() {
	n := verifv.Pick(3, 4)
	verifv.Bound("a first entry followed by up to 3 (quick) or 4 (thorough) sets and key deletions on it with any keys of 0..1 (thorough 0..2) and values of 0..2 bytes")
	log := []Tx{{Kind: TxAdd, UUID: "u0"}}
	for i := verifv.Choose("len", n+1); i > 0; i-- {
		tx := Tx{UUID: "u0", Kind: txKinds[2+verifv.Choose("kind", 2)], Key: verifv.String("key", verifv.Choose("klen", verifv.Pick(2, 3)))}
		if tx.Kind == TxSetKey {
			tx.Value = verifv.String("val", verifv.Choose("vlen", 3))
		}
		log = append(log, tx)
	}
	t01Check(log)
}

// The same for long histories, whose records are fixed except for one.
func Harness_T01_long() {
	verifv.Bound("histories of 63, 257, 1001 and (thorough) 5003 records on up to five entries, one of them, anywhere, with any one-byte key and value, refreshed after none, one, half or all but one of them")
	verifv.StepLimit(30000000)
	n := []int{63, 257, 1001, 5003}[verifv.Choose("len", verifv.Pick(3, 4))]
	ids := []string{"u0", "u1", "u2", "u3", "u4"}
	key, val := verifv.String("key", 1), verifv.String("val", 1)
	var log []Tx
	live := 0
	at := []int{7, n / 2, n - 1}[verifv.Choose("where", 3)]
	for i := 0; i < n; i++ {
		tx := Tx{Kind: TxSetKey, UUID: "u0", Time: int64(i), Key: string(rune('a' + i%26)), Value: string(rune('a' + i%23))}
		switch {
		case i == at:
			tx.Key, tx.Value = key, val
		case i%11 == 0:
			if live < len(ids) {
				tx = Tx{Kind: TxAdd, UUID: ids[live], Time: int64(i)}
				live++
			} else {
				live--
				tx = Tx{Kind: TxDelete, UUID: ids[live], Time: int64(i)}
			}
		case i%7 == 0:
			tx = Tx{Kind: TxDeleteKey, UUID: ids[i%live], Time: int64(i), Key: string(rune('a' + i%5))}
		default:
			tx.UUID = ids[i%live]
		}
		log = append(log, tx)
	}
	want, ok := refReplay(log)
	verifv.Assert(ok, "the harness wrote a bad history")
	s := &DB{Log: cpLog(log)}
	cut := []int{0, 1, n / 2, n - 1}[verifv.Choose("cut", 4)]
	s.Log = s.Log[:cut]
	verifv.Assert(s.UpdateSnapshot() == nil && s.Version == uint(cut), "refreshing part of a long history failed")
	s.Log = append(s.Log, log[cut:]...)
	verifv.Assert(s.UpdateSnapshot() == nil, "refreshing a long history failed")
	verifv.Assert(refSame(s.Snapshot, want), "the state is not what replaying the long history gives")
	verifv.Assert(s.Version == uint(n), "the version is not the number of records applied (long)")
	verifv.Assert(eqLog(s.Log, log), "refreshing changed the history")
	past, err := s.SnapshotAt(n - cut)
	before, _ := refReplay(log[:cut])
	verifv.Assert(err == nil && refSame(past, before), "a long time ago the state was another")
	verifv.Reach("long history applied")
}

func t01Check(log []Tx) {
	want, ok := refReplay(log)

	s := &DB{}
	cut := verifv.Choose("cut", len(log)+1)
	s.Log = append(s.Log, log[:cut]...)
	first, firstOK := refReplay(log[:cut])
	err := s.UpdateSnapshot()
	verifv.Assert((err == nil) == firstOK, "refreshing a history fails exactly when it does not replay")
	if err == nil {
		verifv.Assert(refSame(s.Snapshot, first), "the state is not what replaying the history gives")
		verifv.Assert(s.Version == uint(cut), "the version is not the number of records applied")
	}
	s.Log = append(s.Log, log[cut:]...)
	err = s.UpdateSnapshot()
	verifv.Assert((err == nil) == ok, "an incremental refresh fails exactly when the history does not replay")
	if err == nil {
		verifv.Assert(refSame(s.Snapshot, want), "refreshing incrementally differs from replaying the history")
		verifv.Assert(s.Version == uint(len(log)), "the version is not the number of records applied (incremental)")
		verifv.Assert(s.UpdateSnapshot() == nil && refSame(s.Snapshot, want), "refreshing again changed the state")
		verifv.Reach("applies")
	} else {
		verifv.Reach("refused")
	}
	verifv.Assert(eqLog(s.Log, log), "refreshing changed the history")

	s.ResetSnapshot()
	err = s.UpdateSnapshot()
	verifv.Assert((err == nil) == ok, "rebuilding from scratch fails exactly when the history does not replay")
	if err == nil {
		verifv.Assert(refSame(s.Snapshot, want), "rebuilding from scratch differs from replaying the history")
		verifv.Assert(s.Version == uint(len(log)), "the version is not the number of records applied (rebuild)")
	}
}

// Every sequence of operations on a store, compared with a replay of the
// records those operations ought to have written.
func Harness_T01_ops() {
	n := verifv.Pick(4, 5)
	verifv.Bound("an entry with one field, then every sequence of 4 (quick) or 5 (thorough) operations out of add, set, delete key, delete entry, refresh, transaction rolled back or committed around a set, undo 1..2 records, save and reload; any one-letter keys and values (T04 covers every byte)")
	s := &DB{}
	id, err := s.Add()
	if err != nil {
		return
	}
	ids := []string{id}
	log := cpLog(s.Log)
	verifv.Assert(len(log) == 1 && log[0].Kind == TxAdd && log[0].UUID == id, "adding an entry records something else")
	pick := func() string { return ids[verifv.Choose("which", len(ids))] }
	alive := func(u string) bool {
		in := false
		for _, tx := range log {
			if tx.UUID == u {
				in = tx.Kind != TxDelete
			}
		}
		return in
	}
	rec := func(k TxKind, u, key, val string) {
		log = append(log, Tx{Time: verifv.Clock(), Kind: k, UUID: u, Key: key, Value: val})
	}
	set := func(u string) (k, v string) {
		k, v = letter("key"), letter("val")
		s.Set(u, k, v)
		return k, v
	}
	k, v := set(id)
	rec(TxSetKey, id, k, v)
	for ; n > 0; n-- {
		switch verifv.Choose("op", 8) {
		case 0:
			if len(ids) > 1 {
				return
			}
			u, err := s.Add()
			verifv.Assert(err == nil, "adding failed")
			rec(TxAdd, u, "", "")
			ids = append(ids, u)
		case 1:
			u := pick()
			if !alive(u) {
				return
			}
			k, v := set(u)
			rec(TxSetKey, u, k, v)
		case 2:
			u := pick()
			if !alive(u) {
				return
			}
			k := letter("key")
			s.DeleteKey(u, k)
			rec(TxDeleteKey, u, k, "")
		case 3:
			u := pick()
			if !alive(u) {
				return
			}
			s.Delete(u)
			rec(TxDelete, u, "", "")
		case 4:
			verifv.Assert(s.UpdateSnapshot() == nil, "refreshing failed")
		case 5:
			u := pick()
			if !alive(u) {
				return
			}
			s.Begin()
			k, v := set(u)
			if verifv.Choose("view", 2) == 1 {
				verifv.Assert(s.UpdateSnapshot() == nil, "refreshing inside a transaction failed")
			}
			if verifv.Choose("end", 2) == 0 {
				s.Rollback()
			} else {
				s.Commit()
				rec(TxSetKey, u, k, v)
			}
		case 6:
			k := 1 + verifv.Choose("undo", 2)
			if k >= len(log) {
				return
			}
			verifv.Assert(s.RollbackN(uint(k)) == nil, "undoing failed")
			log = log[:len(log)-k]
		case 7:
			b, err := s.Save()
			verifv.Assert(err == nil, "saving failed")
			s, err = New(b)
			verifv.Assert(err == nil, "reloading failed")
		}
	}
	want, ok := refReplay(log)
	verifv.Assert(ok, "the harness wrote a bad history")
	verifv.Assert(s.UpdateSnapshot() == nil, "the history does not apply")
	verifv.Assert(eqLog(s.Log, log), "the history is not the list of accepted edits")
	verifv.Assert(refSame(s.Snapshot, want), "the state is not what replaying the accepted edits gives")
	verifv.Assert(s.Version == uint(len(log)), "the version is not the number of records")
	for _, u := range ids {
		last, cnt := int64(-1), 0
		for _, tx := range log {
			if tx.UUID == u {
				last = tx.Time
				cnt++
			}
		}
		verifv.Assert(s.LastUpdated(u) == last, "the last update time is not that of the entry's last record")
		verifv.Assert(s.NVersions(u) == cnt, "the number of versions is not that of the entry's records")
	}
	verifv.Reach("compared")
}
