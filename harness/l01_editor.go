// package-dir: .
package main

import (
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// zero tells whether there is nothing but zero bytes.
func zero(b []byte) bool {
	ok := true
	for _, c := range b {
		ok = verifv.And(ok, c == 0)
	}
	return ok
}

// session with an editor; it returns the state before, what the editor left in
// the file and how it ended.
type editing struct {
	u       *uiContext
	key     string
	before  map[string]map[string]string
	records int
	log     []txlogs.Tx
	old     string
	left    string
	gone    bool // the editor removed the file
	bad     bool // the editor failed
	ran     int
	path    string
	fault   bool
}

func edits(fault bool) *editing {
	verifv.RandMode = 2
	e := &editing{u: newUI(), fault: fault}
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "pass", "pw", "other", "text")
	h.entry("f", "different", "k", "v")
	e.key = []string{"k", "pass", "notes", "updated"}[verifv.Choose("key", 4)]
	switch verifv.Choose("old", 3) {
	case 0:
		e.old = verifv.String("old", 1)
		h.put(txlogs.TxSetKey, "e", e.key, e.old)
	case 1:
		e.old = "a longer\ntext\n"
		h.put(txlogs.TxSetKey, "e", e.key, e.old)
	default:
		if e.key == "pass" {
			e.old = "pw"
		}
	}
	e.u.store.Log = h.log
	verifv.Assert(e.u.store.UpdateSnapshot() == nil, "the history does not apply")
	e.before, _ = refState(h.log)
	e.records, e.log = len(h.log), cpTxs(h.log)

	want := ""
	verifv.Programs = map[string]bool{}
	switch verifv.Choose("editor", 4) {
	case 0:
		verifv.Env["EDITOR"] = "/usr/bin/myeditor"
		verifv.Programs["vim"] = true
		want = "/usr/bin/myeditor"
	case 1:
		verifv.Programs["nano"], verifv.Programs["vim"] = true, true
		want = "vim"
	case 2:
		verifv.Programs["nano"] = true
		want = "nano"
	}
	how := verifv.Choose("how", 6)
	verifv.ExecHook = func(c *verifv.Exec_Cmd) error {
		e.ran++
		if len(c.Args) == 2 && c.Args[0] == "" {
			e.bad = true
			return verifv.ErrInjected
		}
		verifv.Assert(len(c.Args) == 2 && c.Args[0] == want, "the wrong editor is run")
		e.path = c.Args[1]
		data, ok := verifv.GetFile(e.path)
		verifv.Assert(ok, "the editor is given no file")
		verifv.Assert(verifv.EqS(string(data), e.old), "the editor is not given the old text")
		verifv.Assert(verifv.FileMode(e.path)&0077 == 0, "others can read the file being edited")
		e.left = string(data)
		write := func(n int) []byte {
			text := verifv.Bytes("new", n)
			e.left = string(text)
			return text
		}
		switch how {
		case 0: // leaves it
		case 1: // writes the file
			verifv.SetFile(e.path, write(verifv.Choose("length", 3)))
		case 2: // replaces the file, with other permissions
			verifv.PutFile(e.path, write(1))
		case 3:
			verifv.DropFile(e.path)
			e.gone = true
		case 4: // writes more and fails
			verifv.SetFile(e.path, append([]byte("the secret text of "), write(1)...))
			e.left = "the secret text of " + e.left
			e.bad = true
			return &verifv.Exec_ExitError{Code: 1 + verifv.Choose("code", 2)}
		default: // ends in some other way
			e.bad = true
			return verifv.ErrInjected
		}
		return nil
	}
	return e
}

func (e *editing) check() {
	after := len(e.u.store.Log)
	verifv.Assert(after >= e.records && vSameLog(e.u.store.Log[:e.records], e.log), "the history was changed")
	stored := after != e.records
	if e.ran == 0 || e.bad || e.gone || e.key == "updated" {
		verifv.Assert(!stored, "something was stored although editing failed")
	} else if !e.fault {
		verifv.Assert(stored || (e.left == "" && e.old == ""), "the edited text was not stored")
	}
	if stored {
		if e.left == "" {
			delete(e.before["e"], e.key)
		} else {
			e.before["e"][e.key] = e.left
		}
		for _, tx := range e.u.store.Log[e.records:] {
			if tx.Key == "updated" {
				e.before["e"]["updated"] = tx.Value
			}
		}
	}
	verifv.Assert(storeIs(e.u.store, e.before), "the store does not hold exactly the edited text")
	switch {
	case stored && e.left != "":
		verifv.Reach("stored")
	case stored:
		verifv.Reach("erased")
	default:
		verifv.Reach("left alone")
	}
}

// The editor does anything.
func Harness_L01_edit() {
	verifv.Bound("old text absent, any byte or several lines; the new text any of up to two bytes, put in place or as a new file; or the editor removes the file, ends with a status having written more, does not start, or is not there; an ordinary, the password's, the notes' or a protected field")
	e := edits(false)
	script("edit some/entry " + e.key)
	r := &repl{ctx: e.u}
	verifv.Assert(r.run() == nil, "the session ended")
	verifv.Assert(e.ran == 1, "the editor was not run exactly once")
	e.check()
	verifv.Assert(len(verifv.Files()) == 0, "the text stays in a file")
	if !e.gone {
		verifv.Assert(len(verifv.Removed) == 1, "not exactly one file was used")
	}
	for _, g := range verifv.Removed {
		verifv.Assert(zero(g.Data), "the text is not wiped before the file is removed")
	}
	verifv.Assert(!has(verifv.Output(), "secret"), "the text is shown")
}

// Any file operation fails, or somebody else has the file.
func Harness_L01_fault() {
	verifv.Bound("as before, with any one of the file operations failing (writes after 0 or 1 bytes), no random identifiers, or the file's name taken by someone else")
	e := edits(true)
	verifv.FSPartial = verifv.Choose("partial", 2)
	switch k := verifv.Choose("fault", 14); k {
	case 0:
		verifv.UUIDFault = true
	case 1:
		verifv.FSOpenHook = func(path string, flag int) {
			if strings.HasPrefix(path, "/tmp/") && verifv.FileMode(path) == 0 {
				verifv.PutFile(path, []byte("theirs"))
				e.path = path
			}
		}
	default:
		verifv.FSFault = k - 2
	}
	script("edit some/entry " + e.key)
	r := &repl{ctx: e.u}
	taken := verifv.FSOpenHook != nil
	err := r.run()
	verifv.Assert(err == nil || verifv.UUIDFault, "the session ended")
	if taken {
		data, ok := verifv.GetFile(e.path)
		verifv.Assert(ok && string(data) == "theirs" && e.ran == 0, "a file of someone else is used")
		verifv.Assert(len(e.u.store.Log) == e.records, "something was stored")
		verifv.Reach("taken")
		return
	}
	e.check()
	for _, f := range verifv.Files() {
		last := verifv.FSLog[verifv.FSFault]
		verifv.Assert(last == "remove "+f, "the file stays after a failure of: "+last)
		verifv.Reach("cannot be removed")
	}
}

// Large texts.
func Harness_L01_large() {
	verifv.Bound("an old text of 0, 10, 4096, 4097 and 9000 bytes and a new one of 0, 10, 4096, 4097, 8192 or 9000, put in place; the file is wiped in its whole length")
	verifv.RandMode = 2
	verifv.StepLimit(60000000)
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "pass", "pw")
	fill := func(n int, c byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = c + byte(i%23)
		}
		return string(b)
	}
	sizes := []int{0, 10, 4096, 4097, 9000, 8192}
	old := fill(sizes[verifv.Choose("old", 5)], 'a')
	left := fill(sizes[verifv.Choose("new", 6)], 'A')
	if old != "" {
		h.put(txlogs.TxSetKey, "e", "k", old)
	}
	u.store.Log = h.log
	verifv.Programs = map[string]bool{"vim": true}
	ran := 0
	verifv.ExecHook = func(c *verifv.Exec_Cmd) error {
		ran++
		data, ok := verifv.GetFile(c.Args[1])
		verifv.Assert(ok && string(data) == old, "the editor is not given the old text")
		verifv.SetFile(c.Args[1], []byte(left))
		return nil
	}
	script("edit some/entry k")
	r := &repl{ctx: u}
	verifv.Assert(r.run() == nil, "the session ended")
	verifv.Assert(ran == 1, "the editor was not run exactly once")
	st, ok := refState(u.store.Log)
	verifv.Assert(ok && st["e"]["k"] == left, "the edited text was not stored")
	verifv.Assert(len(verifv.Files()) == 0, "the text stays in a file")
	verifv.Assert(len(verifv.Removed) == 1, "not exactly one file was used")
	for _, g := range verifv.Removed {
		verifv.Assert(len(g.Data) >= len(left), "the file is not wiped in its whole length")
		for _, c := range g.Data {
			verifv.Assert(c == 0, "the text is not wiped before the file is removed")
		}
	}
	verifv.Reach("wiped")
}
