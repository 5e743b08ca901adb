// package-dir: txlogs
package txlogs

import "github.com/aarondl/bpass/verifv"

// pool gives n records after a first add of u0, in strictly increasing time
// order, for two entries. Kinds are drawn from the given list. rest(i) is
// true when the record may be used as it is.
func pool(n int, kinds []TxKind) []Tx {
	p := []Tx{{Kind: TxAdd, UUID: "u0", Time: verifv.Int64("t")}}
	live := map[string]bool{"u0": true}
	made := map[string]bool{"u0": true}
	for i := 0; i < n; i++ {
		tx := Tx{Kind: kinds[verifv.Choose("kind", len(kinds))], Time: verifv.Int64("t")}
		verifv.Assume(tx.Time > p[len(p)-1].Time)
		switch tx.Kind {
		case TxAdd:
			tx.UUID = "u1"
			if made["u1"] {
				tx.UUID = "u2"
			}
			if made[tx.UUID] {
				verifv.Assume(false)
			}
			made[tx.UUID], live[tx.UUID] = true, true
		default:
			tx.UUID = txIDs[verifv.Choose("uuid", 2)]
			if !made[tx.UUID] {
				verifv.Assume(false)
			}
			tx.Key = verifv.String("key", 1)
			if tx.Kind == TxDelete {
				tx.Key = ""
			}
			if tx.Kind == TxSetKey {
				tx.Value = verifv.String("val", 1)
			}
		}
		p = append(p, tx)
	}
	return p
}

// split hands each record of the pool (all but the first, which everyone has)
// to a non-empty choice of k replicas, and returns their histories.
func split(p []Tx, k int) [][]Tx {
	out := make([][]Tx, k)
	for i, tx := range p {
		m := 1<<k - 1
		if i > 0 {
			m = 1 + verifv.Choose("who", 1<<k-1)
		}
		for r := 0; r < k; r++ {
			if m>>r&1 == 1 {
				out[r] = append(out[r], tx)
			}
		}
	}
	return out
}

// valid tells whether a history applies from an empty state (kinds and
// identifiers are concrete here).
func valid(log []Tx) bool {
	live := map[string]bool{}
	for _, tx := range log {
		if tx.Kind == TxAdd {
			if live[tx.UUID] {
				return false
			}
			live[tx.UUID] = true
			continue
		}
		if !live[tx.UUID] {
			return false
		}
		if tx.Kind == TxDelete {
			live[tx.UUID] = false
		}
	}
	return true
}
