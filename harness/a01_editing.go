// package-dir: .
package main

import (
	"io"
	"strconv"
	"strings"
	"unicode"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// a01Store has three entries, one of them long gone.
func a01Store(h *hist) {
	h.entry("gone", "old", "k", "v")
	h.put(txlogs.TxDelete, "gone", "", "")
	h.entry("e0", "ab", "k", "v0", "pass", "p0", "user", "u0")
	h.entry("e1", "Ab", "k", "v1", "labels", "l")
	h.entry("e2", "a/b", "k", "v2")
}

var a01Names = []string{"ab", "Ab", "a/b"}

// a01At is which entry has exactly a name, or -1.
func a01At(name string) int {
	for i, n := range a01Names {
		if verifv.EqS(n, name) {
			return i
		}
	}
	return -1
}

func a01Error(k int) error {
	return []error{nil, ErrEnd, ErrInterrupt, io.ErrClosedPipe}[k]
}

// Removing asks first.
func Harness_A01_remove() {
	verifv.Bound("removing one of three entries (names differing in case, one with a slash) or one that is not there or no longer there; the confirmation any text of 0..3 characters, the name with a blank or other case, the end, an interrupt or a failing terminal")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	a01Store(h)
	u.store.Log = h.log
	n := len(h.log)
	name := []string{"ab", "Ab", "a/b", "a", "b", "old", "AB"}[verifv.Choose("name", 7)]
	fail := verifv.Choose("fail", 4)
	typed := ""
	switch k := verifv.Choose("typed", 5); k {
	case 0, 1, 2, 3:
		typed = verifv.String("typed", k)
	default:
		typed = []string{name + " ", " " + name, strings.ToUpper(name), "\"" + name + "\"", "yes"}[verifv.Choose("other", 5)]
	}
	asked := 0
	ask(6, func(i int, p, said string) (string, error) {
		switch i {
		case 0:
			return "rm " + name, nil
		case 1:
			if has(p, "proceed") {
				asked++
				verifv.Assert(has(p, "\""+name+"\""), "it is not said what is going to be removed")
				if fail == 1 {
					return "", ErrEnd
				}
				return typed, a01Error(fail)
			}
		}
		return "", io.EOF
	})
	r := &repl{ctx: u}
	err := r.run()
	at := a01At(name)
	if at < 0 {
		verifv.Assert(asked == 0 && err == nil && len(u.store.Log) == n, "removing what is not there did something")
		verifv.Assert(has(verifv.Output(), "not found"), "it is not told that there is no such entry")
		verifv.Reach("absent")
		return
	}
	verifv.Assert(asked == 1, "removing an entry was not asked about once")
	if fail == 0 && typed == name {
		verifv.Assert(err == nil, "the session ended")
		a01Only(u, n, txlogs.TxDelete, "e"+strconv.Itoa(at), "", "")
		verifv.Reach("removed")
		return
	}
	verifv.Assert(len(u.store.Log) == n, "an entry was removed without being confirmed")
	if fail < 2 {
		verifv.Assert(err == nil, "the session ended")
		verifv.Assert(has(verifv.Output(), "Aborted"), "it is not told that nothing was removed")
	} else {
		verifv.Assert(err == a01Error(fail), "an interrupt or failing terminal is lost")
	}
	verifv.Reach("kept")
}

// a01Only asserts that exactly one record was added.
func a01Only(u *uiContext, n int, kind txlogs.TxKind, id, key, value string) {
	verifv.Assert(len(u.store.Log) >= n, "records are lost")
	var got []txlogs.Tx
	for _, tx := range u.store.Log[n:] {
		verifv.Assert(tx.UUID == id, "another entry was touched")
		if tx.Key != "updated" {
			got = append(got, tx)
		}
	}
	verifv.Assert(len(got) == 1, "not exactly one change was made")
	tx := got[0]
	verifv.Assert(verifv.And(tx.Kind == kind, verifv.EqS(tx.Key, key), verifv.EqS(tx.Value, value)), "another change was made than the one asked for")
}

// Renaming.
func Harness_A01_rename() {
	verifv.Bound("renaming from and to any name of 1..3 characters of a, A, b, B and /, three entries there (names differing in case, one with a slash), with more words after it or not")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	a01Store(h)
	u.store.Log = h.log
	n := len(h.log)
	sym := func(label string) string {
		s := verifv.String(label, 1+verifv.Choose("length", 3))
		for i := range []byte(s) {
			verifv.Assume(verifv.InSet(s[i], "aAbB/"))
		}
		return s
	}
	src, dst := sym("from"), sym("to")
	line := "mv " + src + " " + dst
	if verifv.Choose("more", 2) == 1 {
		line = "mv  " + src + "\t" + dst + " x"
	}
	out := len(verifv.Output())
	verifv.Assert(session(u, line) == nil, "the session ended")
	said := verifv.Output()[out:]
	from, to := a01At(src), a01At(dst)
	if from >= 0 && to < 0 {
		a01Only(u, n, txlogs.TxSetKey, "e"+strconv.Itoa(from), "name", dst)
		verifv.Assert(has(said, "moved"), "it is not told that the entry was renamed")
		verifv.Reach("renamed")
		return
	}
	verifv.Assert(len(u.store.Log) == n, "an entry was renamed that should not be")
	if from < 0 {
		verifv.Assert(has(said, "does not exist"), "it is not told that there is no such entry")
		verifv.Reach("absent")
	} else {
		verifv.Assert(has(said, "already exists"), "it is not told that the name is taken")
		verifv.Reach("taken")
	}
}

func a01Split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

// Labelling.
func Harness_A01_label() {
	verifv.Bound("no, one or two labels there; up to two (thorough three) lines each of 1 or 2 any ASCII characters or one of nine with characters of several bytes, blanks, commas, capitals or a label there is; ended by a blank line, a dot, the end, an interrupt or a failing terminal")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	a01Store(h)
	was := []string{"", "x", "x,yy"}[verifv.Choose("labels", 3)]
	if was != "" {
		h.put(txlogs.TxSetKey, "e0", "labels", was)
	}
	u.store.Log = h.log
	n := len(h.log)
	labels := a01Split(was)
	var lines []string
	added, refused := 0, 0
	m := verifv.Choose("lines", verifv.Pick(3, 4))
	for i := 0; i < m; i++ {
		l := ""
		k := verifv.Choose("kind", 4)
		if k < 2 {
			l = verifv.String("label", k+1)
			for j := range []byte(l) {
				verifv.Assume(l[j] < 0x80)
			}
			verifv.Assume(verifv.Not(verifv.EqS(l, ".")))
		} else if k == 2 && i == 0 || k == 3 && i == 1 {
			l = []string{"é", "É", "a\u00a0b", "ǅ", "ab cd", "a,b", "x", "yy", "..", "Σ"}[verifv.Choose("fixed", 10)]
		} else {
			return
		}
		lines = append(lines, l)
		ok := true
		if k < 2 {
			for j := range []byte(l) {
				c := l[j]
				ok = verifv.And(ok, c != ',', c != ' ', verifv.Not(verifv.And(c >= 9, c <= 13)), verifv.Not(verifv.And(c >= 'A', c <= 'Z')))
			}
		} else {
			for _, c := range l {
				ok = ok && !unicode.IsSpace(c) && !unicode.IsUpper(c) && c != ','
			}
		}
		for _, o := range labels {
			ok = verifv.And(ok, verifv.Not(verifv.EqS(o, l)))
		}
		if ok {
			added++
			labels = append(labels, l)
		} else {
			refused++
		}
	}
	end := verifv.Choose("end", 5)
	at := 0
	ask(10, func(i int, p, said string) (string, error) {
		if i == 0 {
			return "label ab", nil
		}
		if at < len(lines) {
			at++
			return lines[at-1], nil
		}
		if at == len(lines) {
			at++
			switch end {
			case 0:
				return "", nil
			case 1:
				return ".", nil
			}
			return "", a01Error(end - 1)
		}
		return "", io.EOF
	})
	r := &repl{ctx: u}
	err := r.run()
	if end > 2 {
		verifv.Assert(err == a01Error(end-1), "an interrupt or failing terminal is lost")
		verifv.Assert(len(u.store.Log) == n, "labels were changed although it was interrupted")
		verifv.Reach("interrupted")
		return
	}
	verifv.Assert(err == nil, "the session ended")
	said := verifv.Output()
	verifv.Assert(strings.Count(said, "Labels cannot")+strings.Count(said, "already applied") == refused, "not exactly the refused labels are told")
	if added == 0 {
		verifv.Assert(len(u.store.Log) == n, "labels were changed although none was given")
		verifv.Reach("none")
		return
	}
	a01Only(u, n, txlogs.TxSetKey, "e0", "labels", strings.Join(labels, ","))
	verifv.Reach("labelled")
}

// Removing a label.
func Harness_A01_rmlabel() {
	verifv.Bound("up to three labels of one or two letters, the same ones again and ones differing in case included; removing any text of 1 or 2 characters, within an entry chosen with cd or by name")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	a01Store(h)
	m := verifv.Choose("labels", 4)
	var labels []string
	for i := 0; i < m; i++ {
		l := verifv.String("label", 1+verifv.Choose("two", 2))
		for j := range []byte(l) {
			verifv.Assume(verifv.InSet(l[j], "xXy"))
		}
		labels = append(labels, l)
	}
	if m > 0 {
		h.put(txlogs.TxSetKey, "e0", "labels", strings.Join(labels, ","))
	}
	u.store.Log = h.log
	n := len(h.log)
	q := verifv.String("remove", 1+verifv.Choose("length", 2))
	for i := range []byte(q) {
		verifv.Assume(verifv.InSet(q[i], "xXy,"))
	}
	line := []string{"rmlabel ab " + q}
	if verifv.Choose("in", 2) == 1 {
		line = []string{"cd ab", "rmlabel " + q}
	}
	verifv.Assert(session(u, line...) == nil, "the session ended")
	at := -1
	for i := len(labels) - 1; i >= 0; i-- {
		if verifv.EqS(labels[i], q) {
			at = i
		}
	}
	if at < 0 {
		verifv.Assert(len(u.store.Log) == n, "a label was removed that was not asked for")
		verifv.Assert(has(verifv.Output(), "Could not find that label"), "it is not told that there is no such label")
		verifv.Reach("absent")
		return
	}
	left := append(append([]string(nil), labels[:at]...), labels[at+1:]...)
	if len(left) == 0 {
		a01Only(u, n, txlogs.TxDeleteKey, "e0", "labels", "")
		verifv.Reach("last")
		return
	}
	a01Only(u, n, txlogs.TxSetKey, "e0", "labels", strings.Join(left, ","))
	verifv.Reach("removed")
}

// Adding an entry.
func Harness_A01_add() {
	verifv.Bound("adding an entry with any name of 1..3 characters of a, A, b and /, three entries there; each answer given, or the end, an interrupt or a failing terminal at any of them; the entry without email and user or not")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	a01Store(h)
	u.store.Log = h.log
	n := len(h.log)
	name := verifv.String("name", 1+verifv.Choose("length", 3))
	for i := range []byte(name) {
		verifv.Assume(verifv.InSet(name[i], "aAb/"))
	}
	stop, fail := verifv.Choose("stop", 6), 1+verifv.Choose("fail", 3)
	blank := verifv.Choose("blank", 2) == 1
	asked := 0
	said0 := len(verifv.Output())
	ask(12, func(i int, p, said string) (string, error) {
		if i == 0 {
			return "add " + name, nil
		}
		if asked > 4 || has(p, "(b") && !has(p, ": ") {
			return "", io.EOF
		}
		asked++
		if asked == stop {
			return "", a01Error(fail)
		}
		switch {
		case has(p, "email: "):
			if blank {
				return "", nil
			}
			return "a@b", nil
		case has(p, "user: "):
			if blank {
				return "", nil
			}
			return "me", nil
		case has(p, "enter/?> "):
			return "m", nil
		}
		return "sekret", nil
	})
	r := &repl{ctx: u}
	err := r.run()
	said := verifv.Output()[said0:]
	if a01At(name) >= 0 {
		verifv.Assert(asked == 0 && err == nil && len(u.store.Log) == n, "an entry was added under a name that is taken")
		verifv.Assert(has(said, "already exists"), "it is not told that the name is taken")
		verifv.Reach("taken")
		return
	}
	if stop > 0 {
		verifv.Assert(asked >= stop, "a question was left out")
		verifv.Assert(vSameLog(u.store.Log, h.log), "a half added entry is left behind")
		st, _ := refState(h.log)
		verifv.Assert(storeIs(u.store, st), "a half added entry is shown")
		if fail == 1 {
			verifv.Assert(err == nil && has(said, "Aborted"), "it is not told that nothing was added")
		} else {
			verifv.Assert(err == a01Error(fail), "an interrupt or failing terminal is lost")
		}
		verifv.Reach("stopped")
		return
	}
	verifv.Assert(err == nil, "the session ended")
	verifv.Assert(vSameLog(u.store.Log[:n], h.log), "what was there changed")
	st, ok := refState(u.store.Log)
	verifv.Assert(ok && len(st) == 4, "not exactly one entry was added")
	for id, e := range st {
		if id == "e0" || id == "e1" || id == "e2" {
			continue
		}
		verifv.Assert(verifv.EqS(e["name"], name) && e["pass"] == "sekret", "the new entry is not what was asked for")
		verifv.Assert(blank && e["user"] == "" && e["email"] == "" || e["user"] == "me" && e["email"] == "a@b", "the new entry is not what was typed")
		for _, k := range []string{"name", "pass", "user", "email", "updated"} {
			delete(e, k)
		}
		verifv.Assert(len(e) == 0, "the new entry has a field nobody asked for")
	}
	verifv.Reach("added")
}

// Fields nobody may change by hand.
func Harness_A01_fields() {
	verifv.Bound("setting, editing and removing any of six system fields and two that resemble them in any mix of case of their first and last letters, and a url that is one of twelve")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("e0", "ab", "iv", "1", "salt", "2", "mkey", "3", "totp", "JBSWY3DPEHPK3PXP", "names", "n", "i", "j", "url", "https://old", "updated", "1")
	h.entry("e1", "other")
	u.store.Log = h.log
	n := len(h.log)
	said0 := len(verifv.Output())
	if verifv.Choose("url", 2) == 1 {
		k := verifv.Choose("which", 12)
		url := []string{"https://a.b/c?d#e", "scp://u:p@h:22//x", "file:///x", "HTTP://A", "a:", "x://", // fine
			"example.com", "/path", "mailto:a@b", "://x", "https://h/%zz", "http://[::1"}[k]
		verifv.Assert(session(u, "set ab url "+url) == nil, "the session ended")
		said := verifv.Output()[said0:]
		if k < 4 || k == 5 || k == 4 {
			if k == 4 && len(u.store.Log) == n {
				return // no address either way
			}
			a01Only(u, n, txlogs.TxSetKey, "e0", "url", url)
			verifv.Reach("url")
			return
		}
		verifv.Assert(len(u.store.Log) == n, "an address that is none was stored")
		verifv.Assert(has(said, "url"), "it is not told that the address is none")
		verifv.Reach("no url")
		return
	}
	key := []string{"name", "updated", "iv", "salt", "mkey", "totp", "names", "i"}[verifv.Choose("field", 8)]
	locked := key != "names" && key != "i"
	b := []byte(key)
	for _, i := range []int{0, len(b) - 1} {
		c := verifv.Byte("case")
		verifv.Assume(verifv.Or(c == key[i], c == key[i]-32))
		b[i] = c
	}
	typed := string(b)
	exact := typed == key
	before, _ := refState(h.log)
	cmd := verifv.Choose("command", 3)
	if cmd == 1 {
		verifv.Env["EDITOR"] = "ed"
		verifv.ExecHook = func(c *verifv.Exec_Cmd) error {
			verifv.SetFile(c.Args[len(c.Args)-1], []byte("new"))
			return nil
		}
	}
	if key == "totp" && cmd == 0 && exact {
		return // has its own way, see W01
	}
	verifv.Assert(session(u, []string{"set ab " + typed + " new", "edit ab " + typed, "rmk ab " + typed}[cmd]) == nil, "the session ended")
	said := verifv.Output()[said0:]
	if cmd == 2 && (!locked || key == "totp") {
		if !exact {
			// Nothing of that name
			st, ok := refState(u.store.Log)
			verifv.Assert(ok && st["e0"][key] == before["e0"][key], "another field was removed")
			return
		}
		a01Only(u, n, txlogs.TxDeleteKey, "e0", key, "")
		verifv.Reach("removed")
		return
	}
	if locked {
		verifv.Assert(len(u.store.Log) == n, "a field was changed that nobody may change")
		if exact || cmd < 2 {
			verifv.Assert(has(said, "may not be"), "it is not told that the field may not be changed")
		}
		verifv.Reach("locked")
		return
	}
	a01Only(u, n, txlogs.TxSetKey, "e0", typed, "new")
	verifv.Reach("free")
}

// Lines that ask for nothing that can be done.
func Harness_A01_incomplete() {
	verifv.Bound("each command with fewer words than it needs, with and without a chosen entry, and lines that are blank or name no command (any 1..2 characters)")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	a01Store(h)
	u.store.Log = h.log
	n := len(h.log)
	var lines []string
	said0 := len(verifv.Output())
	switch k := verifv.Choose("line", 3); k {
	case 0:
		lines = []string{[]string{"adduser", "add", "mv", "mv ab", "rm", "rmk", "rmk ab", "set", "set ab", "set ab ", "edit", "edit ab", "open", "label", "rmlabel", "rmlabel ab",
			"labels", "show", "addsync", "dump", "get", "get ab", "cp", "cp ab", "user", "pass", "email", "totp", "login"}[verifv.Choose("command", 29)]}
	case 1:
		lines = []string{"cd ab", []string{"adduser", "add", "mv", "mv x", "rm", "rmk", "set", "edit", "rmlabel", "labels", "addsync", "get", "cp"}[verifv.Choose("command", 13)]}
	default:
		l := verifv.String("line", 1+verifv.Choose("length", 2))
		for i := range []byte(l) {
			verifv.Assume(l[i] < 0x80)
		}
		for _, c := range []string{"mv", "rm", "ls", "cd", "cp"} {
			verifv.Assume(verifv.Not(verifv.EqS(l, c)))
		}
		lines = []string{l}
		said0 = -1
	}
	verifv.Assert(session(u, lines...) == nil, "the session ended")
	verifv.Assert(len(u.store.Log) == n, "a line that is no whole command changed something")
	verifv.Assert(len(verifv.Clip) == 0 && len(verifv.Started) == 0, "a line that is no whole command did something")
	if said0 >= 0 {
		verifv.Assert(has(verifv.Output()[said0:], "syntax: "), "it is not told how the command is used")
		verifv.Reach("usage")
	} else if said := verifv.Output(); said != "" {
		verifv.Assert(has(said, "unknown command"), "it is not told that there is no such command")
		verifv.Reach("unknown")
	}
}
