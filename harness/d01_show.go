// package-dir: .
package main

import (
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)



// shownAs is what the lines of an entry say: "key: value", continuation lines
// joined with a line end.
func shownAs(out string) (m map[string]string, order []string, twice bool) {
	m = map[string]string{}
	last := ""
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		ind := len(l) - len(strings.TrimLeft(l, " "))
		if ind > 2 && last != "" {
			if m[last] != "" {
				m[last] += "\n"
			}
			m[last] += strings.TrimSpace(l)
			continue
		}
		k, v, ok := strings.Cut(strings.TrimSpace(l), ":")
		verifv.Assert(ok, "a line that is no field is shown: "+l)
		if _, ok := m[k]; ok {
			twice = true
		}
		m[k] = strings.TrimSpace(v)
		order = append(order, k)
		last = k
	}
	return m, order, twice
}

// rank is where a field is shown: the usual ones first, the times last.
func rank(key string) int {
	for i, k := range []string{"name", "user", "email", "pass", "totp", "labels", "notes"} {
		if k == key {
			return i
		}
	}
	switch key {
	case "updated":
		return 100
	case "snaps":
		return 101
	}
	return 50
}

// without is the log without its last n records of an entry.
func without(log []txlogs.Tx, id string, n int) (out []txlogs.Tx) {
	left := n
	for i := len(log) - 1; i >= 0; i-- {
		if log[i].UUID == id && left > 0 {
			left--
			continue
		}
		out = append([]txlogs.Tx{log[i]}, out...)
	}
	return out
}

// showLog is a history with one entry to look at, one of its fields holding v.
func showLog(v string, more int, key string, h *hist) {
	h.entry("o", "other", "user", "wrong", "pass", "wrongpass", "k", "wrong")
	h.entry("e", "it", key, "old")
	if more > 0 {
		for _, kv := range [][2]string{{"user", "me"}, {"email", "a@b"}, {"pass", "sekret"}, {"labels", "x,y"}, {"notes", "one\ntwo"}, {"aa", "first"}, {"longer-than-eight", "z"}, {"url", "http://h/?q=1"}} {
			if kv[0] != key && (more > 1 || len(kv[1])%2 == 0) {
				h.put(txlogs.TxSetKey, "e", kv[0], kv[1])
			}
		}
		h.put(txlogs.TxSetKey, "e", "updated", strconv.FormatInt(syncT0+int64(more)*1e12, 10))
		h.put(txlogs.TxSetKey, "e", "gone", "wrong")
		h.put(txlogs.TxDeleteKey, "e", "gone", "")
	}
	if key != "gone" {
		h.put(txlogs.TxSetKey, "e", key, v)
	}
}

// Harness_D01_show looks at an entry.
func Harness_D01_show() {
	verifv.Bound("an entry with none, some or all usual fields, one of them (usual, other, with an odd name, or removed) holding any 1..2 (thorough 3) characters, two lines of any character or nothing; now, and as of each earlier version")
	verifv.RandMode = 2
	u := newUI()
	more := verifv.Choose("more", 3)
	key := []string{"user", "email", "pass", "notes", "labels", "zz", "gone", "%d", "url", "a"}[verifv.Choose("key", 10)]
	lines := key != "labels" && key != "pass" && verifv.Choose("lines", 2) == 1
	n := verifv.Choose("length", verifv.Pick(3, 4))
	v, mark := verifv.String("value", n), strings.Repeat("Q", n)
	for i := range []byte(v) {
		verifv.Assume(verifv.And(v[i] != '\n', v[i] != '\r', v[i] != ' ', v[i] != '\t', v[i] != '\v', v[i] != '\f', v[i] < 0x80))
		if key == "labels" {
			verifv.Assume(v[i] != ',')
		}
	}
	if lines {
		if n == 0 {
			return
		}
		v, mark = "l1\n"+v+"x", "l1\n"+mark+"x"
	}
	look := func(v string) (out string, log []txlogs.Tx) {
		h := &hist{t: syncT0}
		showLog(v, more, key, h)
		u.store.Log = h.log
		u.store.ResetSnapshot()
		return "", h.log
	}
	_, log := look(mark)
	all := 0
	for _, tx := range log {
		if tx.UUID == "e" {
			all++
		}
	}
	back := verifv.Choose("back", 4)
	cmd := "show it"
	switch back {
	case 1:
		cmd += " 1"
	case 2:
		back = all - 3
		cmd += " " + strconv.Itoa(back)
	case 3:
		back = all + 1
		cmd += " " + strconv.Itoa(back)
	}
	verifv.ClearOutput()
	verifv.Concealed = nil
	verifv.Assert(session(u, cmd) == nil, "looking at an entry ended the session")
	out := verifv.Output()
	if back > all {
		verifv.Assert(!has(out, "user") && !has(out, "QZ") && out != "", "a version that never was is shown")
		verifv.Reach("none")
		return
	}
	past := without(log, "e", back)
	st, ok := refState(past)
	verifv.Assert(ok, "the history does not apply")
	want := map[string]string{}
	for k, v := range st["e"] {
		want[k] = v
	}
	if t, ok := want["updated"]; ok {
		ns, _ := strconv.ParseInt(t, 10, 64)
		want["updated"] = time.Unix(0, ns).Format(time.RFC3339)
	}
	if back == 0 {
		want["snaps"] = strconv.Itoa(all)
	}
	if l, ok := want["labels"]; ok {
		want["labels"] = strings.ReplaceAll(l, ",", ", ")
	}
	got, order, twice := shownAs(out)
	verifv.Assert(!twice, "a field is shown twice")
	for i := 1; i < len(order); i++ {
		a, b := rank(order[i-1]), rank(order[i])
		verifv.Assert(a < b || a == b && order[i-1] < order[i], "the fields are not shown in their order")
	}
	for k, v := range want {
		g, ok := got[k]
		verifv.Assert(ok, "a field is not shown: "+k)
		verifv.Assert(g == v, "a field is shown wrong: "+k)
	}
	verifv.Assert(len(got) == len(want), "something the entry does not have is shown")
	if p := want["pass"]; p != "" {
		verifv.Assert(len(verifv.Concealed) == 1 && verifv.Concealed[0] == p && strings.Count(out, p) == 1, "the password can be read over the shoulder")
		verifv.Reach("concealed")
	}
	// with the value being anything, exactly that is shown in its place
	at := -1
	if n == 0 || !has(want[key], mark) {
		return
	}
	if lines {
		mark, v = mark[3:], v[3:]
	}
	at = strings.Index(out, mark)
	verifv.Assert(at >= 0, "a value is not shown in one piece")
	if lines {
		v = strings.TrimSuffix(v, "x") + "x"
	}
	look(map[bool]string{true: "l1\n" + v, false: v}[lines])
	verifv.ClearOutput()
	verifv.Assert(session(u, cmd) == nil, "looking at an entry ended the session")
	out2 := verifv.Output()
	verifv.Assert(verifv.EqS(out2, out[:at]+v+out[at+len(mark):]), "a value is not shown exactly")
	verifv.Reach("shown")
}

// Harness_D01_list lists entries.
func Harness_D01_list() {
	verifv.Bound("up to three entries with names of any 2 letters or fixed, labels or none, a user entry, a removed and a renamed one; listed all, by a query or by label")
	u := newUI()
	h := &hist{t: syncT0}
	names := []string{}
	n := verifv.Choose("entries", 4)
	for i := 0; i < n; i++ {
		name := []string{"b/mail", "a/mail", "zoo"}[i]
		if i == 1 && verifv.Choose("any", 2) == 1 {
			name = verifv.String("name", 2)
			verifv.Assume(verifv.And(name[0] >= 'a', name[0] <= 'z', name[1] >= 'a', name[1] <= 'z'))
		}
		h.entry("e"+strconv.Itoa(i), name, "labels", []string{"x", "y,x", "y"}[i], "pass", "sekret")
		names = append(names, name)
	}
	h.entry("d", "dead", "labels", "x")
	h.put(txlogs.TxDelete, "d", "", "")
	h.entry("m", "before", "labels", "z")
	h.put(txlogs.TxSetKey, "m", "name", "moved")
	names = append(names, "moved")
	u.store.Log = h.log
	verifv.ClearOutput()
	cmd, want := "", []string{}
	switch verifv.Choose("how", 4) {
	case 0:
		cmd, want = "ls", names
	case 1:
		cmd = "ls moved"
		want = []string{"moved"}
	case 2:
		cmd = "labels x"
		for i := 0; i < n && i < 2; i++ {
			want = append(want, names[i])
		}
	default:
		cmd = "labels y x"
		if n > 1 {
			want = append(want, names[1])
		}
	}
	verifv.Assert(session(u, cmd) == nil, "listing ended the session")
	out := verifv.Output()
	if len(want) == 0 {
		verifv.Assert(out == "No entries found\n", "an empty listing is not told")
		return
	}
	want = append([]string(nil), want...)
	sort.Strings(want)
	verifv.Assert(verifv.EqS(out, strings.Join(want, "\n")+"\n"), "not exactly the names are listed, in order")
	verifv.Reach("listed")
}

// Harness_D01_get shows or copies one field.
func Harness_D01_get() {
	verifv.Bound("a field of one of nine names holding any 0..2 (thorough 3) characters, or not set, shown or copied; the clipboard failing or not")
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("o", "other", "user", "wrong", "pass", "wrong", "k", "wrong", "email", "wrong", "labels", "wrong", "notes", "wrong")
	key := []string{"user", "pass", "email", "k", "labels", "notes", "User", "A-b", "url"}[verifv.Choose("key", 9)]
	v := verifv.String("value", verifv.Choose("length", verifv.Pick(3, 4)))
	set := verifv.Choose("set", 2) == 1
	h.entry("e", "it", "other", "wrong", "USER", "wrong", "a-b", "wrong", "K", "wrong")
	if set {
		h.put(txlogs.TxSetKey, "e", key, v)
	}
	u.store.Log = h.log
	verifv.ClearOutput()
	verifv.Clip = nil
	how := verifv.Choose("how", 3)
	cmd := []string{"get it " + key, "cp it " + key, key + " it"}[how]
	if how == 2 && (key != "user" && key != "pass" && key != "email") {
		return
	}
	verifv.ClipFault = how > 0 && verifv.Choose("fault", 2) == 1
	verifv.Assert(session(u, cmd) == nil, "looking at a field ended the session")
	out := verifv.Output()
	verifv.Assert(vSameLog(u.store.Log, h.log), "looking at a field changed the store")
	switch {
	case !set:
		verifv.Assert(has(out, "not set"), "a field that is not set is not told")
		verifv.Assert(len(verifv.Clip) == 0, "a field that is not set is copied")
	case how == 0:
		verifv.Assert(verifv.EqS(out, v+"\n"), "not exactly the value is shown")
		verifv.Assert(len(verifv.Clip) == 0, "a value shown is copied")
		verifv.Reach("shown")
	default:
		if verifv.ClipFault {
			verifv.Assert(has(strings.ToLower(out), "fail"), "a failing clipboard is not told")
			return
		}
		verifv.Assert(len(verifv.Clip) == 1 && verifv.EqS(verifv.Clip[0], v), "not exactly the value is copied")
		verifv.Reach("copied")
	}
}

// Harness_D01_many shows a large entry and lists many.
func Harness_D01_many() {
	verifv.Bound("an entry with 40 (thorough 200) fields, one of any 2 letters and one of 12 lines; 60 (thorough 400) entries listed, two of them named by any 2 letters")
	u := newUI()
	h := &hist{t: syncT0}
	v := verifv.String("value", 2)
	verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z', v[1] >= 'a', v[1] <= 'z'))
	if verifv.Choose("list", 2) == 1 {
		n := verifv.Pick(60, 400)
		names := []string{v}
		h.entry("s", v)
		for i := 0; i < n; i++ {
			name := "many/" + strconv.Itoa(i*7919%1000)
			h.entry("e"+strconv.Itoa(i), name)
			names = append(names, name)
		}
		u.store.Log = h.log
		verifv.ClearOutput()
		cmd := "ls"
		if verifv.Choose("query", 2) == 1 {
			cmd, names = "ls many/", names[1:]
		}
		verifv.Assert(session(u, cmd) == nil, "listing ended the session")
		sort.Strings(names)
		verifv.Assert(verifv.EqS(verifv.Output(), strings.Join(names, "\n")+"\n"), "not exactly the names are listed, in order")
		verifv.Reach("listed")
		return
	}
	n := verifv.Pick(40, 200)
	h.entry("e", "it", "pass", "sekret")
	want := map[string]string{"name": "it", "pass": "sekret"}
	for i := 0; i < n; i++ {
		k, val := "k"+strconv.Itoa(i), strings.Repeat("v", i)
		switch i {
		case 0:
			val = "x"
		case 20:
			val = strings.Repeat("line\n", 12) + "end"
		case 25:
			val = "QQ"
		}
		h.put(txlogs.TxSetKey, "e", k, val)
		want[k] = val
	}
	want["snaps"] = strconv.Itoa(n + 3)
	u.store.Log = h.log
	verifv.ClearOutput()
	verifv.Assert(session(u, "show it") == nil, "looking at an entry ended the session")
	out := verifv.Output()
	got, order, twice := shownAs(out)
	verifv.Assert(!twice && len(got) == len(want), "not exactly the entry's fields are shown")
	for k, v := range want {
		verifv.Assert(got[k] == v, "a field is shown wrong: "+k)
	}
	for i := 1; i < len(order); i++ {
		a, b := rank(order[i-1]), rank(order[i])
		verifv.Assert(a < b || a == b && order[i-1] < order[i], "the fields are not shown in their order")
	}
	at := strings.Index(out, "QQ")
	for i := range h.log {
		if h.log[i].Key == "k25" {
			h.log[i].Value = v
		}
	}
	u = newUI()
	u.store.Log = h.log
	verifv.ClearOutput()
	verifv.Assert(session(u, "show it") == nil, "looking at an entry ended the session")
	verifv.Assert(verifv.EqS(verifv.Output(), out[:at]+v+out[at+2:]), "a value is not shown exactly")
	verifv.Reach("shown")
}
