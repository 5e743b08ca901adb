// package-dir: .
package main

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

const lpHeader = "url,username,password,extra,name,grouping,fav"

func quoted(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			b = append(b, '"')
		}
		b = append(b, s[i])
	}
	return string(append(b, '"'))
}

// lpass stands in for the lastpass client.
func lpass(output string, err error) {
	verifv.Programs = map[string]bool{"lpass": true}
	verifv.ExecHook = func(c *verifv.Exec_Cmd) error {
		verifv.Assert(len(c.Args) > 1 && c.Args[0] == "lpass" && c.Args[1] == "export", "another program is run than lpass export")
		if c.Stderr != nil {
			io.WriteString(c.Stderr, "warning: something\n")
		}
		io.WriteString(c.Stdout, output)
		return err
	}
}

func lpName(s string) string { return strings.ReplaceAll(strings.ToLower(s), " ", "_") }

// A good export.
func Harness_I01_records() {
	verifv.Bound("exports of 0..3 records into a new file or one with entries (asked and confirmed), for one record one field of any 0..2 ASCII bytes (thorough 3) but CR, the others present or empty; non-empty names that are equal, differ in case or blanks only, or are taken by an entry that is there; rows ending in LF or CRLF")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	created := verifv.Choose("new file", 2) == 1
	h := &hist{t: syncT0}
	h.entry("e", "some_entry", "k", "v")
	h.entry("g", "some_entry1", "k", "w")
	newUI()
	if !created {
		verifv.PutFile(testFile, sealed(h.log, newRing("pw")))
	} else {
		h.log = nil
	}
	texts := verifv.Choose("texts", 2) == 1
	n := 1
	if !texts {
		n = verifv.Choose("records", 4)
	}
	eol := []string{"\n", "\r\n"}[verifv.Choose("eol", 2)]
	names := []string{"Some Entry", "some_entry", "Plain", "user/x"}
	out := lpHeader + eol
	var recs [][]string
	for i := 0; i < n; i++ {
		rec := []string{"http://sn", "me", "pass", "a\nb", "Some Entry", "Work Things", "1"}
		if texts {
			f := verifv.Choose("field", 4)
			rec[f] = verifv.String("text", verifv.Choose("len", verifv.Pick(3, 4)))
			for j := 0; j < len(rec[f]); j++ {
				verifv.Assume(verifv.And(rec[f][j] != '\r', rec[f][j] < 0x80))
			}
		} else {
			rec[4] = names[verifv.Choose("name", len(names))]
		}
		if i == 1 {
			rec = []string{"", "", "", "", rec[4], "", "0"}
		}
		for k, f := range rec {
			if k > 0 {
				out += ","
			}
			out += quoted(f)
		}
		out += eol
		recs = append(recs, rec)
	}
	lpass(out, nil)
	ask(6, func(n int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "passphrase: "):
			return "pw", nil
		case has(prompt, "proceed"):
			return "y", nil
		}
		return "", io.EOF
	})
	verifv.Assert(run(map[string]string{"no-color": "true"}, "lpassimport") == "", "the import failed")
	data, ok := verifv.GetFile(testFile)
	verifv.Assert(ok, "there is no file after the import")
	log := unsealed("import", data, keyring{pass: "pw"})
	verifv.Assert(len(log) >= len(h.log) && vSameLog(log[:len(h.log)], h.log), "the import changed what was in the file")
	st, ok := refState(log)
	verifv.Assert(ok, "after the import the history does not apply")
	verifv.Assert(len(st) == n+boolInt(!created)*2, "the import does not give one entry for each record")
	taken := map[string]bool{}
	for id, e := range st {
		verifv.Assert(!taken[e[blobformat.KeyName]], "two entries have the same name")
		taken[e[blobformat.KeyName]] = true
		_ = id
	}
	// The new entries, in the order of the records.
	i := 0
	for _, tx := range log[len(h.log):] {
		if tx.Kind != txlogs.TxAdd {
			continue
		}
		e, rec := st[tx.UUID], recs[i]
		i++
		want := lpName(rec[4])
		name := e[blobformat.KeyName]
		verifv.Assert(name != "" && strings.HasPrefix(name, want), "an imported entry has another name than its record")
		delete(taken, name)
		_, dated := e[blobformat.KeyUpdated]
		fields := 1 + boolInt(dated)
		for k, key := range []string{blobformat.KeyURL, blobformat.KeyUser, blobformat.KeyPass, blobformat.KeyNotes} {
			got, there := e[key]
			verifv.Assert(there == (len(rec[k]) > 0), "a field of an imported entry is missing or made up")
			verifv.Assert(verifv.EqS(got, rec[k]), "a field of an imported entry differs from the record's")
			fields += boolInt(there)
		}
		labels, there := e[blobformat.KeyLabels]
		fields += boolInt(there)
		verifv.Assert(there == (rec[5] != ""), "labels of an imported entry are missing or made up")
		if there {
			verifv.Assert(labels == "work things,lpfav", "the labels of an imported entry differ from the record's")
		}
		verifv.Assert(len(e) == fields, "an imported entry has a field the record has not")
	}
	verifv.Assert(i == n, "the import does not give one entry for each record")
	verifv.Reach("imported")
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Sources that are no export, and refusals.
func Harness_I01_refused() {
	verifv.Bound("lpass missing, failing with or without output, printing nothing, another header, rows of another length (first or later), an unfinished quote after good rows, or any 3 bytes; the question whether to import into a file with entries answered otherwise; an error at any file operation; new and existing file")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	created := verifv.Choose("new file", 2) == 1
	h := &hist{t: syncT0}
	h.entry("e", "some_entry", "k", "v")
	newUI()
	var file []byte
	if !created {
		file = sealed(h.log, newRing("pw"))
		verifv.PutFile(testFile, append([]byte(nil), file...))
	}
	good := lpHeader + "\nu,n,p,x,one,g,0\nu,n,p,x,two,g,0\n"
	answer, answered := "y", true
	silent := false
	switch verifv.Choose("source", 12) {
	case 0:
		lpass("", &errorText{"exec: \"lpass\": not found"})
	case 1:
		lpass(good, errors.New("exit status 1"))
	case 2:
		lpass("", nil)
	case 3:
		lpass("u,n,p,x,one,g,0\nu,n,p,x,two,g,0\n", nil)
	case 4:
		lpass("url,username,password,totp,extra,name,grouping,fav\nu,n,p,t,x,one,g,0\n", nil)
	case 5:
		lpass(good+"u,n,p,x,three,g\n", nil)
	case 6:
		lpass(lpHeader+"\nu,n,p,x,one,g\n", nil)
	case 7:
		lpass(good+"u,n,p,\"x,three,g,0\n", nil)
	case 8:
		lpass(good+"u,n,p,x,thr\"ee,g,0\n", nil)
	case 9:
		lpass(verifv.String("output", 3), nil)
	case 10:
		lpass(good, nil)
		verifv.FSFault = 1 + verifv.Choose("step", 10)
		verifv.FSPartial = 10
	default:
		verifv.Assume(!created)
		lpass(good, nil)
		answer = []string{"n", "", "yes", "Yes", "x"}[verifv.Choose("answer", 5)]
		silent = true
		if verifv.Choose("leave", 2) == 1 {
			answered = false
		}
	}
	ask(6, func(n int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "passphrase: "):
			return "pw", nil
		case has(prompt, "proceed") && answered:
			return answer, nil
		}
		return "", io.EOF
	})
	end := run(map[string]string{"no-color": "true"}, "lpassimport")
	data, ok := verifv.GetFile(testFile)
	if verifv.FSFault > 0 && end == "" {
		log := unsealed("import", data, keyring{pass: "pw"})
		st, _ := refState(log)
		verifv.Assert(len(st) == 2+boolInt(!created), "a record is missing after an import that worked")
		verifv.Reach("no fault met")
		return
	}
	verifv.Assert(failed(end) || (silent && answered && end == ""), "an import that did not work reports success")
	verifv.Assert(!strings.HasPrefix(end, "panic"), "the import panicked")
	verifv.Assert(ok == !created, "an import that did not work left a file or lost it")
	if ok {
		verifv.Assert(vSameLog(unsealed("import", data, keyring{pass: "pw"}), h.log), "an import that did not work changed the file")
	}
	verifv.Reach("refused")
}

type errorText struct{ s string }

func (e *errorText) Error() string { return e.s }

// Many records.
func Harness_I01_many() {
	verifv.Bound("exports of 13 and 60 (thorough 400) records, all of one name or of different ones, with long fields of 300 to 5000 bytes, one of them anything at one place")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(200000000)
	newUI()
	n := []int{13, 60, 400}[verifv.Choose("records", verifv.Pick(2, 3))]
	same := verifv.Choose("same name", 2) == 1
	if same && n > 60 {
		return
	}
	v := verifv.String("text", 1)
	verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
	out := lpHeader + "\n"
	var recs [][]string
	for i := 0; i < n; i++ {
		name := "Name"
		if !same {
			name = "n" + strconv.Itoa(i)
		}
		rec := []string{"http://sn", "u" + strconv.Itoa(i), "pass", strings.Repeat("ab\n", 1+100*(i%2)), name, "", "0"}
		if i == n/2 {
			rec[3] = strings.Repeat("long", 1250) + v
		}
		for k, f := range rec {
			if k > 0 {
				out += ","
			}
			out += quoted(f)
		}
		out += "\n"
		recs = append(recs, rec)
	}
	lpass(out, nil)
	ask(6, func(n int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "passphrase: "):
			return "pw", nil
		case has(prompt, "proceed"):
			return "y", nil
		}
		return "", io.EOF
	})
	verifv.Assert(run(map[string]string{"no-color": "true"}, "lpassimport") == "", "the import failed")
	data, ok := verifv.GetFile(testFile)
	verifv.Assert(ok, "there is no file after the import")
	st, ok := refState(unsealed("import", data, keyring{pass: "pw"}))
	verifv.Assert(ok, "after the import the history does not apply")
	verifv.Assert(len(st) == n, "the import does not give one entry for each record")
	names, users := map[string]bool{}, map[string]map[string]string{}
	for _, e := range st {
		verifv.Assert(!names[e[blobformat.KeyName]], "two entries have the same name")
		names[e[blobformat.KeyName]] = true
		users[e[blobformat.KeyUser]] = e
	}
	for _, rec := range recs {
		e := users[rec[1]]
		verifv.Assert(e != nil, "a record is missing")
		verifv.Assert(strings.HasPrefix(e[blobformat.KeyName], lpName(rec[4])), "an imported entry has another name than its record")
		verifv.Assert(verifv.EqS(e[blobformat.KeyNotes], rec[3]), "a field of an imported entry differs from the record's")
		verifv.Assert(e[blobformat.KeyPass] == rec[2] && e[blobformat.KeyURL] == rec[0], "a field of an imported entry differs from the record's")
	}
	verifv.Reach("imported")
}
