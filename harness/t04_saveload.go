// package-dir: txlogs
package txlogs

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/aarondl/bpass/verifv"
)

// t04Records gives n records of any kind with texts of 0 or 1 letters.
func t04Records(n int) (log []Tx) {
	text := func(label string) string {
		if verifv.Choose("empty", 2) == 1 {
			return ""
		}
		return letter(label)
	}
	for i := 0; i < n; i++ {
		k := 0
		if i > 0 {
			k = verifv.Choose("kind", 4)
		}
		tx := Tx{Kind: txKinds[k], UUID: txIDs[verifv.Choose("uuid", 2)]}
		if n > 1 || verifv.Choose("now", 2) == 1 {
			tx.Time = verifv.Int64("t")
			verifv.Assume(tx.Time > 1000000000000000000)
		} else {
			tx.Time = []int64{0, 1, -1, 1 << 53, 1<<53 + 1, 999999999999999999, 1000000000000000000, 1<<63 - 1, -1 << 63}[verifv.Choose("time", 9)]
		}
		if tx.Kind == TxSetKey || tx.Kind == TxDeleteKey {
			tx.Key = text("key")
		}
		if tx.Kind == TxSetKey {
			tx.Value = text("val")
		}
		log = append(log, tx)
	}
	return log
}

func t04Check(log []Tx, valid bool) {
	s := &DB{Log: cpLog(log)}
	if verifv.Choose("refreshed", 2) == 1 {
		s.UpdateSnapshot()
	}
	b, err := s.Save()
	verifv.Assert(err == nil, "saving failed")
	verifv.Assert(eqLog(s.Log, log), "saving changed the history")
	l, err := New(b)
	verifv.Assert(err == nil && l != nil, "loading what was saved failed")
	only, err := NewLog(b)
	verifv.Assert(err == nil, "reading the history of what was saved failed")
	if !valid {
		verifv.Assert(eqLog(l.Log, log), "loading gave other records than were saved (text that is not valid UTF-8)")
		return
	}
	verifv.Assert(eqLog(l.Log, log), "loading gave other records than were saved")
	verifv.Assert(eqLog(only, log), "reading only the history gave other records than were saved")
	want, ok := refReplay(log)
	verifv.Assert((l.UpdateSnapshot() == nil) == ok, "the loaded history applies exactly when it should")
	if ok {
		verifv.Assert(refSame(l.Snapshot, want), "the loaded state is not what the history gives")
		verifv.Assert(l.Version == uint(len(log)), "the loaded version is not the number of records")
		verifv.Reach("same state")
	} else {
		verifv.Reach("same history")
	}
	// Both copies go on the same way.
	s.Set("u0", "k", "v")
	l.Set("u0", "k", "v")
	verifv.Assert(len(s.Log) == len(l.Log), "after loading an edit is recorded differently")
}

// Histories of several records with short texts.
func Harness_T04_history() {
	verifv.Bound("histories of 0..4 (quick) or 0..5 (thorough) records of any kind on two entries, valid or not, any time after 2001 (nine boundary times for a single record), keys and values of 0..1 letters, saved with and without a refreshed state")
	t04Check(t04Records(verifv.Choose("len", verifv.Pick(5, 6))), true)
}

// One set record with longer texts of any bytes.
func Harness_T04_text() {
	n := verifv.Pick(3, 4)
	verifv.Bound("one entry with one field: key of 0..1 and value of 0..3 (quick) or 0..4 (thorough) any bytes (every escape, control character, quote and UTF-8 sequence up to that length)")
	log := []Tx{{Kind: TxAdd, UUID: "u0", Time: 1}, {Kind: TxSetKey, UUID: "u0", Time: 2, Key: "k"}}
	if verifv.Choose("which", 2) == 0 {
		log[1].Value = verifv.String("val", verifv.Choose("len", n+1))
	} else {
		log[1].Key, log[1].Value = verifv.String("key", verifv.Choose("len", n)), "v"
	}
	t04Check(log, utf8.ValidString(log[1].Key) && utf8.ValidString(log[1].Value))
}

// Damaged documents.
func Harness_T04_damaged() {
	n := verifv.Pick(2, 3)
	verifv.Bound("a saved document with any 1..2 (quick) or 1..3 (thorough) consecutive bytes replaced by any bytes, or cut at any point; and any document of 0..3 bytes")
	var doc []byte
	switch verifv.Choose("form", 3) {
	case 0:
		doc = verifv.Bytes("doc", verifv.Choose("len", 4))
	case 1:
		doc = []byte(`{"version":1,"snapshot":{"u":{}},"log":[{"time":7,"kind":"add","uuid":"u"}]}`)
		doc = doc[:verifv.Choose("cut", len(doc))]
	case 2:
		doc = []byte(`{"version":1,"snapshot":{"u":{}},"log":[{"time":7,"kind":"add","uuid":"u"}]}`)
		k := 1 + verifv.Choose("n", n)
		at := verifv.Choose("at", len(doc)-k+1)
		copy(doc[at:], verifv.Bytes("bad", k))
	}
	var s *DB
	var err error
	end := verifv.Catch(func() { s, err = New(doc) })
	verifv.Assert(end == "", "loading a damaged document crashed")
	verifv.Assert(err != nil || s != nil, "loading gave neither a database nor an error")
	var log []Tx
	var err2 error
	end = verifv.Catch(func() { log, err2 = NewLog(doc) })
	verifv.Assert(end == "", "reading the history of a damaged document crashed")
	if err == nil {
		verifv.Assert(err2 == nil && eqLog(log, s.Log), "reading only the history gives another than loading the document")
	}
	if err == nil {
		end = verifv.Catch(func() { s.UpdateSnapshot() })
		verifv.Assert(end == "", "a loaded database cannot be refreshed without a crash")
		verifv.Reach("loaded")
	} else {
		verifv.Reach("refused")
	}
}

// Documents as another program would write them.
func Harness_T04_document() {
	verifv.Bound("documents of 0..2 (thorough 0..3) records with their members in four orders, blanks, unknown members and a state or none; a key and a value of one letter or absent, the time of the last having any last digit; one member of a record given another JSON type in nine ways")
	n := verifv.Choose("records", verifv.Pick(3, 4))
	order, loose, state := 0, false, false
	bad, badAt := -1, 0
	odd := ""
	if n > 0 && verifv.Choose("mistyped", 2) == 1 {
		bad, badAt = verifv.Choose("member", 5), verifv.Choose("record", n)
		odd = []string{`7`, `-7`, `7.5`, `"x"`, `true`, `[]`, `{}`, `null`, `99999999999999999999`}[verifv.Choose("type", 9)]
	} else {
		order = verifv.Choose("order", 4)
		loose = verifv.Choose("loose", 2) == 1
		state = verifv.Choose("state", 2) == 1
	}
	var want []Tx
	doc := []byte("{")
	if loose {
		doc = append(doc, " \"what\": [1, {\"a\": null}],\n"...)
	}
	if state {
		doc = append(doc, `"version":0,"snapshot":{},`...)
	}
	doc = append(doc, `"log":[`...)
	kinds := []TxKind{TxAdd, TxSetKey, TxDeleteKey, TxDelete}
	wrong := false
	for i := 0; i < n; i++ {
		tx := Tx{Kind: kinds[verifv.Choose("kind", 4)], UUID: "u0"}
		digit := byte('3')
		if i == n-1 && !loose {
			digit = verifv.Byte("digit")
			verifv.Assume(verifv.And(digit >= '0', digit <= '9'))
		}
		tx.Time = 1234567890123456780 + int64(digit-'0')
		m := [][]byte{
			append([]byte(`"time":123456789012345678`), digit),
			[]byte(`"kind":"` + string(tx.Kind) + `"`),
			[]byte(`"uuid":"u0"`),
		}
		if tx.Kind == TxSetKey || tx.Kind == TxDeleteKey {
			tx.Key = letter("key")
			m = append(m, []byte(`"key":"`+tx.Key+`"`))
		}
		if tx.Kind == TxSetKey {
			tx.Value = letter("val")
			m = append(m, []byte(`"value":"`+tx.Value+`"`))
		}
		if bad >= 0 && badAt == i {
			if bad >= len(m) {
				return
			}
			name := []string{"time", "kind", "uuid", "key", "value"}[bad]
			m[bad] = []byte(`"` + name + `":` + odd)
			switch {
			case odd == "null":
				switch bad {
				case 0:
					tx.Time = 0
				case 1:
					tx.Kind = ""
				case 2:
					tx.UUID = ""
				case 3:
					tx.Key = ""
				case 4:
					tx.Value = ""
				}
			case bad == 0 && (odd == "7" || odd == "-7"):
				tx.Time = 7
				if odd == "-7" {
					tx.Time = -7
				}
			case bad > 0 && odd == `"x"`:
				switch bad {
				case 1:
					tx.Kind = "x"
				case 2:
					tx.UUID = "x"
				case 3:
					tx.Key = "x"
				case 4:
					tx.Value = "x"
				}
			default:
				wrong = true
			}
		}
		want = append(want, tx)
		if i > 0 {
			doc = append(doc, ',')
		}
		doc = append(doc, '{')
		for k := range m {
			at := (k + order) % len(m)
			if order == 3 {
				at = len(m) - 1 - k
			}
			if k > 0 {
				doc = append(doc, ',')
			}
			if loose {
				doc = append(doc, "\n\t "...)
			}
			doc = append(doc, m[at]...)
		}
		if loose {
			doc = append(doc, ` , "more" : "x" `...)
		}
		doc = append(doc, '}')
	}
	doc = append(doc, "]}"...)
	var s *DB
	var log []Tx
	var err, err2 error
	verifv.NoPanic("loading crashed", func() {
		s, err = New(doc)
		log, err2 = NewLog(doc)
	})
	verifv.Assert((err != nil) == wrong && (err2 != nil) == wrong, "a document is refused exactly when a member has the wrong type")
	if wrong {
		verifv.Reach("refused")
		return
	}
	verifv.Assert(eqLog(s.Log, want), "a document in the documented layout was loaded as another history")
	verifv.Assert(eqLog(log, want), "reading only the history of a document gives another")
	verifv.Reach("loaded")
}

// Long histories and texts.
func Harness_T04_long() {
	verifv.Bound("histories of 60 and 300 (thorough 2000) records on five entries with values of up to 5000 (thorough 70000) characters, one of any letter, and texts in many scripts; saved and loaded three times over")
	verifv.StepLimit(200000000)
	n := []int{60, 300, 2000}[verifv.Choose("len", verifv.Pick(2, 3))]
	v := letter("val")
	var log []Tx
	for i := 0; i < n; i++ {
		tx := Tx{Kind: TxSetKey, UUID: "u" + strconv.Itoa(i*i%5), Time: 1500000000000000001 + int64(i)*1000000007, Key: "k" + strconv.Itoa(i%3), Value: strconv.Itoa(i)}
		switch {
		case i < 5:
			tx = Tx{Kind: TxAdd, UUID: "u" + strconv.Itoa(i), Time: tx.Time}
		case i == n/2:
			tx.Value = strings.Repeat("long\ttext\n", verifv.Pick(500, 7000)) + v
		case i%50 == 7:
			tx.Value = "\u00e9\u65e5\U0001F600<&>\u2028\"\\ \x00\x1f/"
		case i%50 == 9:
			tx.Kind, tx.Value = TxDeleteKey, ""
		}
		log = append(log, tx)
	}
	s := &DB{Log: cpLog(log)}
	want, _ := refReplay(log)
	for k := 0; k < 3; k++ {
		b, err := s.Save()
		verifv.Assert(err == nil, "saving failed")
		s, err = New(b)
		verifv.Assert(err == nil && s != nil, "loading what was saved failed")
		verifv.Assert(eqLog(s.Log, log), "loading gave other records than were saved")
		verifv.Assert(s.UpdateSnapshot() == nil && refSame(s.Snapshot, want), "the loaded state is not what the history gives")
	}
	verifv.Reach("same")
}
