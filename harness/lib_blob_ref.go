// package-dir: blobformat
package blobformat

import (
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// model is the expected content of the store: an association list.
type mEntry struct {
	uuid string
	keys []string
	vals []string
}
type model []mEntry

func newBlobs() Blobs { return Blobs{DB: &txlogs.DB{}} }

func (e *mEntry) get(k string) (string, bool) {
	for i := range e.keys {
		if e.keys[i] == k {
			return e.vals[i], true
		}
	}
	return "", false
}

func (e *mEntry) set(k, v string) {
	for i := range e.keys {
		if e.keys[i] == k {
			e.vals = append([]string(nil), e.vals...)
			e.vals[i] = v
			return
		}
	}
	e.keys = append(append([]string(nil), e.keys...), k)
	e.vals = append(append([]string(nil), e.vals...), v)
}

func (e *mEntry) del(k string) {
	var ks, vs []string
	for i := range e.keys {
		if e.keys[i] != k {
			ks, vs = append(ks, e.keys[i]), append(vs, e.vals[i])
		}
	}
	e.keys, e.vals = ks, vs
}

func (m model) at(uuid string) *mEntry {
	for i := range m {
		if m[i].uuid == uuid {
			return &m[i]
		}
	}
	return nil
}

// snapshotModel replays the history from an empty state, independently of the
// code under test.
func snapshotModel(log []txlogs.Tx) (m model, ok bool) {
	for _, tx := range log {
		e := m.at(tx.UUID)
		if tx.Kind == txlogs.TxAdd {
			if e != nil {
				return nil, false
			}
			m = append(m, mEntry{uuid: tx.UUID})
			continue
		}
		if e == nil {
			return nil, false
		}
		switch tx.Kind {
		case txlogs.TxDelete:
			var n model
			for _, x := range m {
				if x.uuid != tx.UUID {
					n = append(n, x)
				}
			}
			m = n
		case txlogs.TxSetKey:
			e.set(tx.Key, tx.Value)
		case txlogs.TxDeleteKey:
			e.del(tx.Key)
		}
	}
	return m, true
}

// sameState compares two models; the update times of entries in touched are
// not compared.
func sameState(a, b model, touched string) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		y := b.at(a[i].uuid)
		if y == nil || len(y.keys) != len(a[i].keys) {
			return false
		}
		for k, key := range a[i].keys {
			v, ok := y.get(key)
			if !ok {
				return false
			}
			if a[i].uuid == touched && key == KeyUpdated {
				continue
			}
			same = verifv.And(same, verifv.EqS(v, a[i].vals[k]))
		}
	}
	return same
}

// viewIs tells whether the store's current state is the model.
func viewIs(b Blobs, m model) bool {
	if b.UpdateSnapshot() != nil || len(b.Snapshot) != len(m) {
		return false
	}
	same := true
	for i := range m {
		e, ok := b.Snapshot[m[i].uuid]
		if !ok || len(e) != len(m[i].keys) {
			return false
		}
		for k, key := range m[i].keys {
			v, ok := e[key]
			if !ok {
				return false
			}
			same = verifv.And(same, verifv.EqS(v, m[i].vals[k]))
		}
	}
	return same
}

// state gives the model of the store's history, which has to apply and to be
// what the store shows.
func state(b Blobs) model {
	m, ok := snapshotModel(b.Log)
	verifv.Assert(ok, "the history does not apply any more")
	return m
}

// freshly tells whether the entry's update time was written since t0.
func freshly(m model, uuid string, t0 int64) bool {
	e := m.at(uuid)
	if e == nil {
		return false
	}
	bl := Blob{}
	if v, ok := e.get(KeyUpdated); ok {
		bl[KeyUpdated] = v
	}
	ts, err := bl.Updated()
	return err == nil && ts.UnixNano() > t0 && ts.UnixNano() <= verifv.Clock()
}

// nameStr is a name of 0..max letters, slashes and digits... any bytes.
func anyText(label string, max int) string { return verifv.String(label, verifv.Choose("len", max+1)) }

func mustNew(b Blobs, name string) string {
	id, err := b.New(name)
	verifv.Assert(err == nil, "adding an entry with a new name failed")
	return id
}

func addTx(id string) txlogs.Tx { return txlogs.Tx{Kind: txlogs.TxAdd, UUID: id, Time: 1} }
