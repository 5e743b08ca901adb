// package-dir: txlogs
package txlogs

import "github.com/aarondl/bpass/verifv"

// refEntry is one live entry of the reference replay (an association list, no maps).
type refEntry struct {
	uuid string
	keys []string
	vals []string
}

func refFind(st []refEntry, uuid string) int {
	for i := range st {
		if st[i].uuid == uuid {
			return i
		}
	}
	return -1
}

// refReplay applies every record in order from an empty state. ok is false
// when a record creates an entry twice or touches one that is not there.
func refReplay(log []Tx) (st []refEntry, ok bool) {
	for _, tx := range log {
		i := refFind(st, tx.UUID)
		if tx.Kind == TxAdd {
			if i >= 0 {
				return nil, false
			}
			st = append(st, refEntry{uuid: tx.UUID})
			continue
		}
		if i < 0 {
			return nil, false
		}
		if tx.Kind == TxDelete {
			st = append(append([]refEntry(nil), st[:i]...), st[i+1:]...)
			continue
		}
		e := st[i]
		at := -1
		for k := range e.keys {
			if e.keys[k] == tx.Key {
				at = k
			}
		}
		n := refEntry{uuid: e.uuid}
		for k := range e.keys {
			if k != at {
				n.keys, n.vals = append(n.keys, e.keys[k]), append(n.vals, e.vals[k])
			}
		}
		if tx.Kind == TxSetKey {
			n.keys, n.vals = append(n.keys, tx.Key), append(n.vals, tx.Value)
		}
		st = append([]refEntry(nil), st...)
		st[i] = n
	}
	return st, true
}

// refSame tells whether snap holds exactly the entries of st.
func refSame(snap map[string]Entry, st []refEntry) bool {
	if len(snap) != len(st) {
		return false
	}
	same := true
	for _, r := range st {
		e, ok := snap[r.uuid]
		if !ok || e == nil {
			return false
		}
		same = verifv.And(same, refSameEntry(e, r))
	}
	return same
}

func refSameEntry(e Entry, r refEntry) bool {
	if len(e) != len(r.keys) {
		return false
	}
	same := true
	for k := range r.keys {
		v, ok := e[r.keys[k]]
		if !ok {
			return false
		}
		same = verifv.And(same, verifv.EqS(v, r.vals[k]))
	}
	return same
}

// eqTx compares records field by field without branching.
func eqTx(a, b Tx) bool {
	if a.Kind != b.Kind || a.UUID != b.UUID {
		return false
	}
	return verifv.And(a.Time == b.Time, verifv.EqS(a.Key, b.Key), verifv.EqS(a.Value, b.Value))
}

func eqLog(a, b []Tx) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = verifv.And(same, eqTx(a[i], b[i]))
	}
	return same
}

func cpLog(a []Tx) []Tx { return append([]Tx{}, a...) }

var txKinds = []TxKind{TxAdd, TxDelete, TxSetKey, TxDeleteKey}
var txIDs = []string{"u0", "u1", "u2", "u3"}

// symTx is a record of any kind for one of n entries with symbolic key, value and time.
func symTx(kind, n int) Tx {
	tx := Tx{Kind: txKinds[kind], UUID: txIDs[verifv.Choose("uuid", n)]}
	if tx.Kind == TxSetKey || tx.Kind == TxDeleteKey {
		tx.Key = verifv.String("key", 1)
	}
	if tx.Kind == TxSetKey {
		tx.Value = verifv.String("val", 1)
	}
	return tx
}

// letter is any lowercase letter (one that a saved file holds unescaped).
func letter(label string) string {
	b := verifv.Byte(label)
	verifv.Assume(verifv.And(b >= 'a', b <= 'z'))
	return string([]byte{b})
}
