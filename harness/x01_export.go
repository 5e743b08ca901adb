// package-dir: .
package main

import (
	"strconv"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// readCSV reads as RFC 4180 says.
func readCSV(data string) (recs [][]string, ok bool) {
	i := 0
	for i < len(data) {
		var rec []string
		for {
			field := []byte{}
			if i < len(data) && data[i] == '"' {
				i++
				for {
					if i >= len(data) {
						return nil, false
					}
					if data[i] == '"' {
						if i+1 < len(data) && data[i+1] == '"' {
							i++
						} else {
							break
						}
					}
					field = append(field, data[i])
					i++
				}
				i++
			} else {
				for i < len(data) && data[i] != ',' && data[i] != '\n' && data[i] != '\r' {
					if data[i] == '"' {
						return nil, false
					}
					field = append(field, data[i])
					i++
				}
			}
			rec = append(rec, string(field))
			if i >= len(data) {
				break
			}
			if data[i] == ',' {
				i++
				continue
			}
			if data[i] == '\r' {
				i++
			}
			if i >= len(data) || data[i] != '\n' {
				return nil, false
			}
			i++
			break
		}
		recs = append(recs, rec)
	}
	return recs, true
}

// exported asserts that the file is an export of exactly these entries, which
// have distinct concrete names.
func exported(data []byte, st map[string]map[string]string) {
	recs, ok := readCSV(string(data))
	verifv.Assert(ok, "the export cannot be read")
	verifv.Assert(len(recs) == len(st)+1, "the export does not have one record for each entry")
	head := recs[0]
	for i := range head {
		for j := range head {
			verifv.Assert(i == j || head[i] != head[j], "a column is there twice")
		}
	}
	nameCol := -1
	for i, h := range head {
		if h == blobformat.KeyName {
			nameCol = i
		}
	}
	verifv.Assert(nameCol >= 0, "the export does not name its entries")
	for _, e := range st {
		n := 0
		for _, rec := range recs[1:] {
			verifv.Assert(len(rec) == len(head), "a record does not fit the header")
			if rec[nameCol] != e[blobformat.KeyName] {
				continue
			}
			n++
			seen := 0
			for i, h := range head {
				want, there := e[h]
				verifv.Assert(verifv.EqS(rec[i], want), "a field is not exported as it is")
				if there {
					seen++
				}
			}
			verifv.Assert(seen == len(e), "a field is not exported")
		}
		verifv.Assert(n == 1, "an entry is not exported exactly once")
	}
}

// What is in the export.
func Harness_X01_content() {
	verifv.Bound("two to four entries with changed, deleted and missing fields and a deleted entry; one value of any 0..3 bytes (thorough 4) and one key of any byte; changes since loading or none; in the session that made them")
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old", "gone", "x")
	h.entry("d", "deleted", "dk", "dv")
	v := verifv.String("value", verifv.Choose("len", verifv.Pick(4, 5)))
	h.put(txlogs.TxSetKey, "e", "k", v)
	key := "kk"
	if verifv.Choose("anykey", 2) == 1 {
		key = verifv.String("key", 1)
		verifv.Assume(len(v) == 0)
	}
	h.put(txlogs.TxDeleteKey, "e", "gone", "")
	h.put(txlogs.TxDelete, "d", "", "")
	h.entry("f", "other, \"entry\"", key, "w")
	if verifv.Choose("more", 2) == 1 {
		h.entry("g", "empty")
		h.entry("h", "d", "k", "", "notes", "line 1\nline 2\r\n\\.\n")
	}
	u := newUI()
	u.store.Log = cpTxs(h.log)
	if verifv.Choose("since", 2) == 1 {
		u.store.Log = cpTxs(h.log[:5])
		verifv.Assert(u.store.UpdateSnapshot() == nil, "the history does not apply")
		u.store.Log = append(u.store.Log, h.log[5:]...)
	}
	st, ok := refState(h.log)
	verifv.Assert(ok, "the history does not apply")
	flagExportFilename = "/home/u/out.csv"
	verifv.Assert(export(u) == nil, "export failed")
	data, _ := verifv.GetFile("/home/u/out.csv")
	exported(data, st)
	verifv.Assert(vSameLog(u.store.Log, h.log), "export changed the entries")
	verifv.Reach("exported")
}

// Exporting with the program while the disk may fail.
func Harness_X01_program() {
	verifv.Bound("the export command on a file of two entries with an error at any of the file operations, writes that fail having written part, an unknown format, an output that exists or cannot be created")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "a,b", "pass", "p\"q")
	h.entry("f", "other")
	newUI()
	file := sealed(h.log, newRing("pw"))
	verifv.PutFile(testFile, append([]byte(nil), file...))
	out := "/home/u/out.csv"
	flags := map[string]string{"no-color": "true"}
	switch verifv.Choose("output", 4) {
	case 1:
		verifv.PutFile(out, []byte("something much longer than the export will ever be, and with\nlines,too\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n"))
	case 2:
		out = "/nowhere/out.csv"
	case 3:
		flags["format"] = "XML"
	}
	if verifv.Choose("fault", 2) == 1 {
		verifv.FSFault = verifv.Choose("step", 16)
		verifv.FSPartial = 20 * verifv.Choose("partial", 2)
	}
	types(cred{"", "pw"})
	end := run(flags, "export", out)
	verifv.Assert(end == "" || end == "exit1", "export ended with "+end)
	st, _ := refState(h.log)
	if end == "" {
		data, _ := verifv.GetFile(out)
		exported(data, st)
		verifv.Reach("exported")
	} else {
		verifv.Assert(verifv.FSFault >= 0 || out[:2] == "/n" || flags["format"] != "", "export failed without a reason")
		verifv.Reach("failed")
	}
	data, ok := verifv.GetFile(testFile)
	verifv.Assert(ok, "export lost the file")
	verifv.Assert(vSameLog(unsealed("export", data, keyring{pass: "pw"}), h.log), "export changed the file's entries")
}

// Many entries and fields.
func Harness_X01_many() {
	verifv.Bound("40 (thorough 300) entries with up to 30 fields each, one value of the first, middle or last a letter, comma, quote, line end or blank")
	n := verifv.Pick(40, 300)
	at := []int{0, n / 2, n - 1}[verifv.Choose("at", 3)]
	v := verifv.String("value", 1)
	verifv.Assume(verifv.InSet(v[0], "a,\"\n "))
	h := &hist{t: syncT0}
	u := newUI()
	verifv.StepLimit(60000000)
	for i := 0; i < n; i++ {
		id := "e" + strconv.Itoa(i)
		h.entry(id, "entry/"+strconv.Itoa(i), "common", "c"+strconv.Itoa(i))
		for k := 0; k < i%31; k++ {
			h.put(txlogs.TxSetKey, id, "f"+strconv.Itoa(k), strings.Repeat("x,\"", i%3)+strconv.Itoa(k))
		}
		if i == at {
			h.put(txlogs.TxSetKey, id, "f0", v)
		}
	}
	h.put(txlogs.TxDelete, "e3", "", "")
	u.store.Log = cpTxs(h.log)
	st, ok := refState(h.log)
	verifv.Assert(ok, "the history does not apply")
	flagExportFilename = "/home/u/out.csv"
	verifv.Assert(export(u) == nil, "export failed")
	data, _ := verifv.GetFile("/home/u/out.csv")
	exported(data, st)
	verifv.Reach("exported")
}
