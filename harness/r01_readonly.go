// package-dir: .
package main

import (
	"io"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// past is a history around a moment: its records have any times, never
// decreasing, and n of them are not after it.
func past() (log []txlogs.Tx, n int, flag string) {
	h := int64(1500000000000000000)
	flag = "2017-07-14 02:40:00"
	add := func(kind txlogs.TxKind, id, k, v string) {
		log = append(log, txlogs.Tx{Kind: kind, UUID: id, Key: k, Value: v})
	}
	add(txlogs.TxAdd, "e", "", "")
	add(txlogs.TxSetKey, "e", blobformat.KeyName, "some/entry")
	add(txlogs.TxSetKey, "e", "k", "one")
	switch verifv.Choose("history", 4) {
	case 0:
		v := verifv.String("value", 1)
		verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
		add(txlogs.TxSetKey, "e", "k", v)
		add(txlogs.TxDeleteKey, "e", "k", "")
	case 1:
		add(txlogs.TxDelete, "e", "", "")
		add(txlogs.TxAdd, "f", "", "")
		add(txlogs.TxSetKey, "f", blobformat.KeyName, "some/entry")
	case 2:
		add(txlogs.TxSetKey, "e", blobformat.KeyName, "other")
		add(txlogs.TxAdd, "f", "", "")
		add(txlogs.TxSetKey, "f", blobformat.KeyName, "some/entry")
	default:
		add(txlogs.TxSetKey, "e", blobformat.KeySync, "true")
		add(txlogs.TxSetKey, "e", blobformat.KeyURL, "file:///r/a")
	}
	last := int64(0)
	for i := range log {
		t := verifv.Int64("time")
		verifv.Assume(verifv.And(t > h-1000000, t < h+1000000, t >= last))
		log[i].Time, last = t, t
		if t <= h {
			n++
		}
	}
	return log, n, flag
}

// The view at a time.
func Harness_R01_view() {
	verifv.Bound("histories of 6 records (values set and deleted; entry deleted, added again and renamed; a sync entry) with any non-decreasing times around the moment given, equal ones included")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	log, n, flag := past()
	newUI()
	verifv.PutFile(testFile, sealed(log, newRing("pw")))
	verifv.CliFlags = map[string]string{"time": flag}
	parseCli()
	u := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b", readOnly: true}
	verifv.Assert(setupLineEditor(u) == nil, "the terminal could not be set up")
	types(cred{"", "pw"})
	verifv.Assert(u.loadBlob() == nil, "the file cannot be opened at a time")
	want, ok := refState(log[:n])
	verifv.Assert(ok, "the history does not apply")
	verifv.Assert(storeIs(u.store, want), "what is shown is not the state at that time")
	verifv.Assert(vSameLog(u.store.Log, log[:n]), "the history shown is not the one up to that time")
	switch n {
	case 0:
		verifv.Reach("before everything")
	case len(log):
		verifv.Reach("after everything")
	default:
		verifv.Reach("in between")
	}
}

// Every command, and leaving.
func Harness_R01_commands() {
	verifv.Bound("every command of the program with no, one, two or three arguments naming an entry and its fields, prompts answered with a text or ended; at every point of the histories above")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	log, n, flag := past()
	newUI()
	file := sealed(log, newRing("pw"))
	verifv.PutFile(testFile, append([]byte(nil), file...))
	verifv.PutDir("/r")
	verifv.CliFlags = map[string]string{"time": flag}
	parseCli()
	u := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b", readOnly: true}
	verifv.Assert(setupLineEditor(u) == nil, "the terminal could not be set up")
	types(cred{"", "pw"})
	verifv.Assert(u.loadBlob() == nil, "the file cannot be opened at a time")
	verifv.Env["EDITOR"] = "ed"
	verifv.ExecHook = func(c *verifv.Exec_Cmd) error { verifv.SetFile(c.Args[1], []byte("edited")); return nil }
	want, _ := refState(log[:n])
	for cmd := range replCmds {
		for _, args := range []string{"", " some/entry", " some/entry k", " some/entry k v", " file"} {
			lines := []string{cmd + args, "some/entry", "m", "x"}
			script(lines...)
			r := &repl{ctx: u}
			verifv.ClearOutput()
			verifv.NoPanic("the command "+cmd+" panicked in read-only mode", func() {
				err := r.run()
				verifv.Assert(err == nil || err == io.EOF, "the command "+cmd+" failed in read-only mode")
			})
			verifv.Assert(vSameLog(u.store.Log, log[:n]), "the command "+cmd+" changed the history in read-only mode")
			verifv.Assert(u.pass == "pw" && len(u.master) == 0, "the command "+cmd+" changed the credentials in read-only mode")
		}
	}
	verifv.Assert(storeIs(u.store, want), "the commands changed what is shown")
	verifv.Assert(u.saveBlob() == nil, "leaving failed")
	got, _ := verifv.GetFile(testFile)
	verifv.Assert(verifv.EqB(got, file), "the file was written in read-only mode")
	for _, f := range verifv.Files() {
		verifv.Assert(f == testFile, "another file was written in read-only mode")
	}
	for _, op := range verifv.FSLog {
		verifv.Assert(!strings.Contains(op, testFile) || !strings.HasPrefix(op, "write"), "the file was written in read-only mode")
	}
	verifv.Reach("left")
}

// The whole program.
func Harness_R01_program() {
	verifv.Bound("the whole program started with -t on such a file, reading a value, trying to change it, left with exit, end of input or interrupt, or exporting; with and without --no-sync")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	log, n, flag := past()
	file := sealed(log, newRing("pw"))
	verifv.PutFile(testFile, append([]byte(nil), file...))
	verifv.PutDir("/r")
	flags := map[string]string{"time": flag, "no-color": "true"}
	if verifv.Choose("nosync", 2) == 1 {
		flags["no-sync"] = "true"
	}
	want, _ := refState(log[:n])
	value, there := "", false
	for _, e := range want {
		if e[blobformat.KeyName] == "some/entry" {
			value, there = e["k"]
		}
	}
	var end string
	if verifv.Choose("export", 2) == 1 {
		types(cred{"", "pw"})
		end = run(flags, "export", "/home/u/out.csv")
	} else {
		leave := verifv.Choose("leave", 3)
		k := 0
		ask(20, func(nth int, prompt, said string) (string, error) {
			if has(prompt, "passphrase: ") {
				return "pw", nil
			}
			k++
			switch k {
			case 1:
				return "get some/entry k", nil
			case 2:
				if there {
					verifv.Assert(value == "" || has(said, value), "the value at that time is not shown")
				} else {
					verifv.Assert(!has(said, "one"), "a value that was not there at that time is shown")
				}
				return "set some/entry k changed", nil
			case 3:
				return "add another", nil
			case 4:
				if leave == 0 {
					return "exit", nil
				}
			}
			if leave == 1 {
				return "", ErrInterrupt
			}
			return "", io.EOF
		})
		end = run(flags, "")
	}
	verifv.Assert(!strings.HasPrefix(end, "panic"), "the program panicked: "+end)
	got, _ := verifv.GetFile(testFile)
	verifv.Assert(verifv.EqB(got, file), "the file was written in read-only mode")
	_, synced := verifv.GetFile("/r/a")
	verifv.Assert(!synced, "a remote was written in read-only mode")
	verifv.Reach("left")
}
