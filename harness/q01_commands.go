// package-dir: .
package main

import (
	"io"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// The documented matching, as in the search's own check.
func refHit(name, query string) bool {
	ok := make([]bool, len(query)+1)
	ok[0] = true
	for i := 0; i < len(name); i++ {
		for j := len(query); j > 0; j-- {
			q := query[j-1]
			hit := verifv.Or(q == name[i], verifv.And(q >= 'a', q <= 'z', name[i] == q-32))
			ok[j] = verifv.Or(ok[j], verifv.And(ok[j-1], hit))
		}
	}
	return ok[len(query)]
}

func refHits(name, query string) bool {
	q, n := strings.Split(query, "/"), strings.Split(name, "/")
	if len(q) == 1 {
		return refHit(name, query)
	}
	if len(n) < len(q) {
		return false
	}
	all := true
	for i := range q {
		all = verifv.And(all, refHit(n[i], q[i]))
	}
	return all
}

// meant is the entry a query means, or -1.
func meant(names []string, query string, exact bool) int {
	for i, n := range names {
		if n == query {
			return i
		}
	}
	at := -1
	if exact {
		return at
	}
	for i, n := range names {
		if refHits(n, query) {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

// since are the records after the first n, without the times of change.
func since(u *uiContext, n int) (out []txlogs.Tx) {
	verifv.Assert(len(u.store.Log) >= n, "records are lost")
	for _, tx := range u.store.Log[n:] {
		if tx.Key != blobformat.KeyUpdated {
			out = append(out, tx)
		}
	}
	return out
}

// only asserts that exactly one record was added.
func only(u *uiContext, n int, kind txlogs.TxKind, id, key, value string) {
	got := since(u, n)
	verifv.Assert(len(got) == 1, "not exactly one change was made")
	tx := got[0]
	verifv.Assert(verifv.And(tx.Kind == kind, verifv.EqS(tx.UUID, id), verifv.EqS(tx.Key, key), verifv.EqS(tx.Value, value)), "another change was made than the one asked for")
	for _, tx := range u.store.Log[n:] {
		verifv.Assert(tx.UUID == id, "another entry was touched")
	}
}

// Which entry a command acts on.
func Harness_Q01_which() {
	verifv.Bound("three entries with distinct names of one (thorough also two), two and two characters of a, A, b and / and a deleted one; a query of one or two (thorough up to three) of these characters; 14 commands")
	verifv.RandMode = 2
	set := "aAb/"
	sym := func(label string, n int) string {
		s := verifv.String(label, n)
		for i := 0; i < n; i++ {
			verifv.Assume(verifv.InSet(s[i], set))
		}
		return s
	}
	names := []string{sym("name", 1+verifv.Choose("length", verifv.Pick(1, 2))), sym("name", 2), "ba"}
	q := sym("query", 1+verifv.Choose("length", verifv.Pick(2, 3)))
	verifv.Assume(verifv.And(verifv.Not(verifv.EqS(names[0], names[1])), verifv.Not(verifv.EqS(names[1], names[2])), verifv.Not(verifv.EqS(names[0], names[2]))))
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("gone", "ab", "k", "vgone")
	h.put(txlogs.TxDelete, "gone", "", "")
	ids := []string{"e0", "e1", "e2"}
	for i, n := range names {
		s := strconv.Itoa(i)
		h.entry(ids[i], n, "k", "v"+s, "pass", "p"+s, "url", "https://h"+s, "labels", "l,m"+s)
	}
	u.store.Log = h.log
	n := len(h.log)
	verifv.Programs = map[string]bool{"xdg-open": true}
	cmd := verifv.Choose("command", 14)
	at := meant(names, q, cmd >= 12)
	lines := [][]string{
		{"set " + q + " k new"}, {"get " + q + " k"}, {"cp " + q + " k"}, {"pass " + q}, {"rmk " + q + " k"},
		{"rmlabel " + q + " l"}, {"open " + q}, {"cd " + q, "set k new"}, {"label " + q, "x", "."}, {"show " + q},
		{"dump " + q}, {"login " + q}, {"mv " + q + " new"}, {"rm " + q, q},
	}[cmd]
	out := len(verifv.Output())
	verifv.Assert(session(u, lines...) == nil, "the session ended")
	said := verifv.Output()[out:]
	if at < 0 {
		if cmd != 7 || len(u.store.Log) != n {
			verifv.Assert(len(u.store.Log) == n, "something was changed although no entry was meant")
		}
		verifv.Assert(len(verifv.Clip) == 0 && len(verifv.Started) == 0 && !has(said, "v0") && !has(said, "v1") && !has(said, "v2"), "an entry was used although none was meant")
		verifv.Reach("none")
		return
	}
	verifv.Reach("one")
	s := strconv.Itoa(at)
	id := ids[at]
	for i := range ids {
		if i != at {
			verifv.Assert(!has(said, "v"+strconv.Itoa(i)), "another entry's value is shown")
		}
	}
	clip := func(want ...string) {
		verifv.Assert(len(verifv.Clip) == len(want), "not exactly what was asked for was copied")
		for i, w := range want {
			verifv.Assert(verifv.Clip[i] == w, "something else was copied than was asked for")
		}
	}
	switch cmd {
	case 0, 7:
		only(u, n, txlogs.TxSetKey, id, "k", "new")
		return
	case 4:
		only(u, n, txlogs.TxDeleteKey, id, "k", "")
		return
	case 5:
		only(u, n, txlogs.TxSetKey, id, "labels", "m"+s)
		return
	case 8:
		only(u, n, txlogs.TxSetKey, id, "labels", "l,m"+s+",x")
		return
	case 12:
		only(u, n, txlogs.TxSetKey, id, "name", "new")
		return
	case 13:
		only(u, n, txlogs.TxDelete, id, "", "")
		return
	}
	verifv.Assert(len(u.store.Log) == n, "looking changed something")
	switch cmd {
	case 1:
		verifv.Assert(strings.HasSuffix(said, "v"+s+"\n"), "the value is not printed")
		clip()
	case 2:
		clip("v" + s)
	case 3:
		clip("p" + s)
	case 6:
		verifv.Assert(len(verifv.Started) == 1 && len(verifv.Started[0]) == 2 && verifv.Started[0][1] == "https://h"+s, "not exactly the entry's address was opened")
	case 9, 10:
		verifv.Assert(has(said, "v"+s), "the value is not shown")
		clip()
	case 11:
		clip("p" + s)
	}
}

// What set stores.
func Harness_Q01_set() {
	verifv.Bound("set with the separator after it a space, tab, two spaces or one outside ASCII; the field of one (thorough or two) letters or the password; a value of 1..2 (thorough 3) any bytes or one of four with spaces, quotes and characters of several bytes; with and without a current entry")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "kk", "old", "pass", "p", "url", "https://old")
	h.entry("f", "other", "kk", "old")
	u.store.Log = h.log
	n := len(h.log)
	key := verifv.String("key", 1+verifv.Choose("key length", verifv.Pick(1, 2)))
	for i := range key {
		verifv.Assume(verifv.InSet(key[i], "kKz0-"))
	}
	if verifv.Choose("pass", 2) == 1 {
		key = "pass"
	}
	value := verifv.String("value", 1+verifv.Choose("value length", verifv.Pick(2, 3)))
	if k := verifv.Choose("fixed", 5); k > 0 {
		value = []string{"two  spaces", "a = \"b\" \\n ", "é\u00a0世", " lead"}[k-1]
	}
	// The line's own end is not part of the value.
	for i := 0; i < len(value); i++ {
		verifv.Assume(verifv.And(value[i] != '\n', value[i] != '\r'))
	}
	last, _ := utf8.DecodeLastRuneInString(value)
	verifv.Assume(!unicode.IsSpace(last))
	sep := []string{" ", "\t", "\u00a0"}[verifv.Choose("separator", 3)]
	var lines []string
	if verifv.Choose("in", 2) == 1 {
		lines = []string{"cd some/entry", "set" + sep + key + " " + value}
	} else {
		lines = []string{"set" + sep + "some/entry " + key + " " + value}
	}
	verifv.Assert(session(u, lines...) == nil, "the session ended")
	only(u, n, txlogs.TxSetKey, "e", key, value)
	verifv.Reach("stored")
}

// The entry that was chosen stays the one.
func Harness_Q01_context() {
	verifv.Bound("an entry is chosen (by its name or a part of it), then renamed, another is renamed to its name, it or another is removed (confirmed or not), renamed by name back and forth, or another is chosen; then a field is set, removed and read")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("e", "ab", "k", "v-e")
	h.entry("f", "a2b", "k", "v-f")
	h.entry("g", "zz", "k", "v-g")
	u.store.Log = h.log
	lines := []string{[]string{"cd ab", "cd a2"}[verifv.Choose("choose", 2)]}
	at := map[string]string{"cd ab": "e", "cd a2": "f"}[lines[0]]
	name := map[string]string{"e": "ab", "f": "a2b", "g": "zz"}
	byName := func(n string) string {
		for id, m := range name {
			if m == n {
				return id
			}
		}
		return ""
	}
	for i := 0; i < verifv.Pick(2, 3); i++ {
		switch verifv.Choose("then", 6) {
		case 0:
		case 1:
			from, to := []string{"ab", "a2b", "zz"}[verifv.Choose("from", 3)], []string{"ab", "axb", "zz"}[verifv.Choose("to", 3)]
			lines = append(lines, "mv "+from+" "+to)
			if id := byName(from); id != "" && byName(to) == "" {
				name[id] = to
			}
		case 2:
			from := []string{"ab", "a2b"}[verifv.Choose("remove", 2)]
			confirm := []string{from, "no"}[verifv.Choose("confirm", 2)]
			if id := byName(from); id == "" {
				lines = append(lines, "rm "+from)
			} else {
				lines = append(lines, "rm "+from, confirm)
				if confirm == from {
					delete(name, id)
				}
			}
		case 3:
			lines = append(lines, "cd zz")
			if id := byName("zz"); id != "" {
				at = id
			}
		case 4:
			lines = append(lines, "cd nothing")
		default:
			lines = append(lines, "ls")
		}
		if _, ok := name[at]; !ok {
			at = ""
		}
	}
	k := 0
	n := 0
	prompt := ""
	ask(40, func(_ int, p, said string) (string, error) {
		if k < len(lines) {
			k++
			return lines[k-1], nil
		}
		if k == len(lines) {
			k++
			n = len(u.store.Log)
			prompt = p
			return "set k 2", nil
		}
		return "", io.EOF
	})
	r := &repl{ctx: u}
	verifv.Assert(r.run() == nil, "the session ended")
	if at == "" {
		verifv.Assert(len(u.store.Log) == n, "another entry was changed than the one chosen, which is gone")
		verifv.Reach("gone")
		return
	}
	only(u, n, txlogs.TxSetKey, at, "k", "2")
	verifv.Assert(has(prompt, ":"+name[at]+"> "), "the prompt does not name the entry that is used")
	verifv.Reach("chosen")
}

// Values that are asked for.
func Harness_Q01_asked() {
	verifv.Bound("a field of several lines (each of up to 2 any characters, blank lines and the ways to end it), a new entry's email, user and password of up to 2 any characters, typed by hand or generated, and a password set by hand or generated")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "kk", "old", "pass", "p")
	u.store.Log = h.log
	n := len(h.log)
	text := func(label string) string {
		s := verifv.String(label, verifv.Choose("length", 3))
		for i := range []byte(s) {
			verifv.Assume(verifv.And(s[i] != '\n', s[i] != '\r'))
		}
		return s
	}
	switch verifv.Choose("what", 3) {
	case 0:
		// Two blank lines, "." or the end stop it; a single one inside is kept.
		var want []string
		lines := []string{"set some/entry kk"}
		blank := false
		m := verifv.Choose("lines", verifv.Pick(3, 4))
		for i := 0; i < m; i++ {
			l := text("line")
			verifv.Assume(verifv.Not(verifv.EqS(l, ".")))
			if l == "" {
				if blank {
					verifv.Assume(false)
				}
				blank = true
			} else {
				if blank {
					want = append(want, "")
				}
				blank = false
				want = append(want, l)
			}
			lines = append(lines, l)
		}
		switch verifv.Choose("end", 3) {
		case 0:
			lines = append(lines, ".")
		case 1:
			if !blank {
				lines = append(lines, "")
			}
			lines = append(lines, "")
		}
		verifv.Assert(session(u, lines...) == nil, "the session ended")
		only(u, n, txlogs.TxSetKey, "e", "kk", strings.Join(want, "\n"))
		verifv.Reach("lines")
	case 1:
		email, user := text("email"), text("user")
		pw, script := u.typedPassword(text)
		ask(20, func(i int, p, said string) (string, error) {
			switch {
			case i == 0:
				return "add new/one", nil
			case has(p, "email: "):
				return email, nil
			case has(p, "user: "):
				return user, nil
			}
			return script(p, said)
		})
		r := &repl{ctx: u}
		verifv.Assert(r.run() == nil, "the session ended")
		id, blob, err := u.store.FindByName("new/one")
		verifv.Assert(err == nil && id != "" && id != "e", "the new entry is not there")
		want := map[string]string{"name": "new/one", "email": email, "user": user, "pass": pw()}
		for k, v := range want {
			got, ok := blob[k]
			verifv.Assert(verifv.And(ok == (v != ""), verifv.EqS(got, v)), "the new entry does not have the "+k+" typed")
		}
		for k := range blob {
			_, ok := want[k]
			verifv.Assert(ok || k == "updated", "the new entry has a field nobody asked for")
		}
		for _, tx := range u.store.Log[n:] {
			verifv.Assert(tx.UUID == id, "another entry was touched")
		}
		verifv.Reach("added")
	default:
		pw, script := u.typedPassword(text)
		ask(20, func(i int, p, said string) (string, error) {
			if i == 0 {
				return "set some/entry pass", nil
			}
			return script(p, said)
		})
		r := &repl{ctx: u}
		verifv.Assert(r.run() == nil, "the session ended")
		only(u, n, txlogs.TxSetKey, "e", "pass", pw())
		verifv.Reach("password")
	}
}

// typedPassword answers the password menu: by hand (perhaps mistyped once) or
// accepting what is generated, perhaps after another.
func (u *uiContext) typedPassword(text func(string) string) (pw func() string, answer func(p, said string) (string, error)) {
	got := ""
	mode := verifv.Choose("password", 3)
	typed := ""
	if mode == 0 {
		typed = text("password")
	}
	again := mode == 2
	miss := mode == 0 && verifv.Choose("mistyped", 2) == 1
	asked := 0
	menu := 0
	return func() string { return got }, func(p, said string) (string, error) {
		switch {
		case has(p, "enter new password: "):
			got = typed
			return typed, nil
		case has(p, "verify password: "):
			asked++
			if miss && asked == 1 {
				return typed + "x", nil
			}
			return typed, nil
		case has(p, "u/l/n/b/e/y/c/m/enter/?> "):
			menu++
			if mode == 0 {
				return "m", nil
			}
			i := strings.LastIndex(said, "password: ")
			verifv.Assert(i >= 0, "no password is shown")
			got = strings.TrimSuffix(said[i+len("password: "):], "\n")
			if again && menu == 1 {
				return []string{"", "16", "e", "u 3"}[verifv.Choose("change", 4)], nil
			}
			return "y", nil
		}
		return "", io.EOF
	}
}

// What is copied and shown.
func Harness_Q01_shown() {
	verifv.Bound("values of 0..2 any characters read by get, cp, user, email, pass, login and show, of the current and an earlier version; absent fields; the clipboard working or not")
	verifv.RandMode = 2
	u := newUI()
	h := &hist{t: syncT0}
	v := verifv.String("value", verifv.Choose("length", 3))
	key := []string{"user", "email", "pass", "k"}[verifv.Choose("key", 4)]
	h.entry("e", "some/entry", key, "before")
	h.put(txlogs.TxSetKey, "e", key, v)
	u.store.Log = h.log
	n := len(h.log)
	verifv.ClipFault = verifv.Choose("clip", 2) == 1
	out := len(verifv.Output())
	cmd := verifv.Choose("command", 8)
	line := []string{"get some/entry " + key, "cp some/entry " + key, key + " some/entry", "login some/entry", "show some/entry", "show some/entry 1", "get some/entry none", "cp some/entry none"}[cmd]
	if cmd == 2 && key == "k" {
		return
	}
	verifv.Assert(session(u, line) == nil, "the session ended")
	said := verifv.Output()[out:]
	verifv.Assert(len(u.store.Log) == n, "looking changed something")
	copied := false
	switch cmd {
	case 0:
		verifv.Assert(verifv.EqS(said, v+"\n"), "the value is not printed exactly")
	case 1, 2:
		copied = true
	case 3:
		copied = key != "k"
	case 4:
		oneLine := true
		for i := range []byte(v) {
			oneLine = verifv.And(oneLine, v[i] != '\n')
		}
		if oneLine {
			verifv.Assert(has(said, " "+v+"\n"), "the value is not shown")
		}
		verifv.Assert(!has(said, "before"), "a former value is shown")
	case 5:
		verifv.Assert(has(said, " before\n"), "the former value is not shown")
	default:
		verifv.Assert(has(said, "is not set"), "an absent field is not reported")
	}
	if copied && !verifv.ClipFault {
		verifv.Assert(len(verifv.Clip) == 1 && verifv.EqS(verifv.Clip[0], v), "not exactly the value is copied")
		verifv.Reach("copied")
	} else {
		verifv.Assert(len(verifv.Clip) == 0, "something is copied that was not asked for")
	}
	if copied && verifv.ClipFault {
		verifv.Assert(has(said, "Failed to copy"), "a failure to copy is not reported")
		verifv.Reach("not copied")
	}
}

// Among many entries.
func Harness_Q01_many() {
	verifv.Bound("40 (thorough 300) entries of similar names and, first, amid or last, one of any two letters; a query that is a name, a part of one or of many, or any letter; set, get and rm of it")
	verifv.RandMode = 2
	n := verifv.Pick(40, 300)
	odd := verifv.String("name", 2)
	verifv.Assume(verifv.And(verifv.InSet(odd[0], "aqz"), verifv.InSet(odd[1], "xYz")))
	u := newUI()
	h := &hist{t: syncT0}
	var names []string
	at := []int{0, n / 2, n - 1}[verifv.Choose("at", 3)]
	for i := 0; i < n; i++ {
		name := "site/" + strconv.Itoa(i)
		if i == at {
			name = odd
		}
		names = append(names, name)
		h.entry("e"+strconv.Itoa(i), name, "k", "V="+strconv.Itoa(i)+".")
	}
	u.store.Log = h.log
	q := []string{"site/3", "s/39", "site", "1", "y", "sx/"}[verifv.Choose("query", 6)]
	if verifv.Choose("any", 2) == 1 {
		q = verifv.String("query", 1)
		verifv.Assume(verifv.And(q[0] >= 'a', q[0] <= 'z'))
	}
	log := len(h.log)
	cmd := verifv.Choose("command", 3)
	m := meant(names, q, cmd == 2)
	out := len(verifv.Output())
	line := []string{"set " + q + " k new", "get " + q + " k", "rm " + q}[cmd]
	verifv.Assert(session(u, line, q) == nil, "the session ended")
	said := verifv.Output()[out:]
	if m < 0 {
		verifv.Assert(len(u.store.Log) == log && !has(said, "V="), "an entry was used although none was meant")
		verifv.Reach("none")
		return
	}
	id := "e" + strconv.Itoa(m)
	verifv.Reach("one")
	switch cmd {
	case 0:
		only(u, log, txlogs.TxSetKey, id, "k", "new")
	case 1:
		verifv.Assert(has(said, "V="+strconv.Itoa(m)+"."), "the value is not printed")
	default:
		only(u, log, txlogs.TxDelete, id, "", "")
	}
}
