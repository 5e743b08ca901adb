// package-dir: .
package main

import (
	"errors"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/verifv"
)

// e01Store has up to n entries with different names of letters, one of them
// possibly renamed and one possibly deleted; names are those there are.
func e01Store(u *uiContext, n int) (names []string) {
	ids := []string{}
	for i := verifv.Choose("entries", n+1); i > 0; i-- {
		name := verifv.String("name", 1+verifv.Choose("long", 2))
		for k := range name {
			verifv.Assume(verifv.InSet(name[k], "abB/"))
		}
		for _, o := range names {
			verifv.Assume(verifv.Not(verifv.EqS(o, name)))
		}
		id, err := u.store.New(name)
		verifv.Assert(err == nil, "adding an entry failed")
		u.store.DB.Set(id, blobformat.KeyPass, "a")
		names, ids = append(names, name), append(ids, id)
	}
	if len(ids) == 0 {
		return names
	}
	switch verifv.Choose("later", 3) {
	case 1:
		verifv.Assert(u.store.Rename(ids[0], "zz") == nil, "renaming failed")
		names[0] = "zz"
	case 2:
		u.store.DB.Delete(ids[0])
		names = names[1:]
	}
	return names
}

// offers asserts that what is offered after the line are exactly these words,
// each once and sorted.
func offers(line, typed string, words []string) {
	var want []string
	for _, w := range words {
		if strings.HasPrefix(w, typed) {
			want = append(want, w)
		}
	}
	sort.Strings(want)
	rests, back := verifv.Complete(line + typed)
	verifv.Assert(len(rests) == len(want), "not exactly the entries there are are offered")
	for i, r := range rests {
		verifv.Assert(back == len(typed), "what was typed is not kept")
		verifv.Assert(verifv.EqS(r, want[i][len(typed):]+" "), "what is offered is not an entry's name")
	}
}

func Harness_E01_complete() {
	n := verifv.Pick(2, 3)
	verifv.Bound("stores of 0..2 (thorough 0..3) entries with different names of 1..2 characters out of a, b, B, /, the first possibly renamed or deleted afterwards; completing nothing, one such character or two z after each of eighteen commands, twice with an entry added or removed in between")
	u := newUI()
	names := e01Store(u, n)
	log := len(u.store.Log)
	cmds := []string{"rm", "mv", "cd", "show", "set", "get", "cp", "edit", "open", "rmk", "label", "rmlabel", "pass", "user", "email", "totp", "sync"}
	cmd := cmds[verifv.Choose("command", len(cmds))]
	typed := ""
	switch verifv.Choose("typed", 3) {
	case 1:
		typed = verifv.String("typed", 1)
		verifv.Assume(verifv.InSet(typed[0], "abB/z"))
	case 2:
		typed = "z"
	}
	for _, n := range names {
		// a name typed out goes on to the next word
		verifv.Assume(verifv.Not(verifv.EqS(n, typed)))
	}
	offers(cmd+" ", typed, names)
	verifv.Assert(len(u.store.Log) == log, "completing changed the store")
	if len(names) > 0 && verifv.Choose("then", 2) == 1 {
		id, _, err := u.store.FindByName(names[0])
		verifv.Assert(err == nil && id != "", "an entry is gone")
		u.store.DB.Delete(id)
		names = names[1:]
	} else {
		_, err := u.store.New("yy")
		verifv.Assert(err == nil, "adding an entry failed")
		names = append(append([]string(nil), names...), "yy")
	}
	offers(cmd+" ", typed, names)
	verifv.Reach("offered")
}

// Every command offered is one there is.
func Harness_E01_words() {
	verifv.Bound("completing nothing or any one lowercase letter at an empty prompt, the program just started")
	newUI()
	typed := ""
	if verifv.Choose("typed", 2) == 1 {
		typed = verifv.String("typed", 1)
		verifv.Assume(verifv.And(typed[0] >= 'a', typed[0] <= 'z'))
	}
	rests, back := verifv.Complete(typed)
	seen := map[string]bool{}
	for _, r := range rests {
		w := typed[:back] + strings.TrimSpace(r)
		if back == 0 {
			w = strings.TrimSpace(r)
		}
		_, ok := replCmds[w]
		verifv.Assert(ok, "a command is offered that is not there")
		verifv.Assert(!seen[w], "a command is offered twice")
		seen[w] = true
		verifv.Reach("offered")
	}
}

// What a prompt gives back.
func Harness_E01_lines() {
	verifv.Bound("a prompt of 1..2 and an answer of 0..2 any bytes each, with and without echo; answered, ended, interrupted or failing, three prompts in a row; whatever the environment holds")
	u := newUI()
	verifv.EnvAll = "/tmp/anything"
	verifv.Assert(setupLineEditor(u) == nil, "the terminal could not be set up")
	type ans struct {
		text string
		err  error
	}
	odd := errors.New("odd")
	for i := 0; i < 3; i++ {
		hidden := verifv.Choose("hidden", 2) == 1
		prompt := "p"
		if i == 1 {
			prompt = verifv.String("prompt", 1+verifv.Choose("plen", 2))
		}
		text := verifv.String("text", verifv.Choose("len", 3))
		var give, want error
		switch verifv.Choose("how", 4) {
		case 1:
			give, want = io.EOF, ErrEnd
		case 2:
			give, want = verifv.Readline_ErrInterrupt, ErrInterrupt
		case 3:
			give, want = odd, odd
		}
		asked := 0
		verifv.LineHook = func(p string, h bool) (string, error) {
			asked++
			verifv.Assert(verifv.EqS(p, prompt), "another prompt is shown")
			verifv.Assert(h == hidden, "a line is hidden or not by mistake")
			return text, give
		}
		var got string
		var err error
		if hidden {
			got, err = u.in.LineHidden(prompt)
		} else {
			got, err = u.in.Line(prompt)
		}
		verifv.Assert(asked == 1, "not asked exactly once")
		verifv.Assert(err == want, "the end of input, an interrupt and a failure are not told apart")
		if err == nil {
			verifv.Assert(verifv.EqS(got, text), "the line given back is not what was typed")
			verifv.Reach("line")
		} else {
			verifv.Assert(got == "", "text is given back along with an error")
			verifv.Reach("error")
		}
	}
	verifv.Assert(len(verifv.History) == 0, "an answer ended up in the history by itself")
	u.in.AddHistory("l")
	verifv.Assert(len(verifv.History) == 1 && verifv.History[0] == "l", "a line is not remembered")
	verifv.Assert(len(verifv.Wrote) == 0, "history is written to a file")
	verifv.Assert(u.in.Close() == nil && verifv.TermClosed == 1, "the terminal is not closed")
}

// Through the prompt: lines that are run are remembered, in order, as typed.
func Harness_E01_history() {
	verifv.Bound("two lines out of eight at the prompt, with any one blank or letter before and after; ended, interrupted or failing")
	u := newUI()
	lines := []string{"ls", "cd", "nothing", "", "help", "labels", "ls  aB/C", "exit"}
	good := []bool{true, true, false, false, true, true, true, false}
	var want []string
	stop := false
	var in []string
	for i := 0; i < 2; i++ {
		k := verifv.Choose("line", len(lines))
		l := lines[k]
		if verifv.Choose("blanks", 2) == 1 {
			in = append(in, " "+l+"\t")
		} else {
			in = append(in, l)
		}
		if !stop && good[k] {
			want = append(want, l)
		}
		if k == 7 {
			stop = true
		}
	}
	odd := errors.New("odd")
	how := []error{io.EOF, verifv.Readline_ErrInterrupt, odd}[verifv.Choose("how", 3)]
	n := 0
	verifv.LineHook = func(p string, h bool) (string, error) {
		n++
		verifv.Assert(!h, "commands are not shown as typed")
		if n <= len(in) {
			return in[n-1], nil
		}
		verifv.Assert(n == len(in)+1, "the prompt comes back after the end")
		return "", how
	}
	r := &repl{ctx: u}
	err := r.run()
	switch {
	case stop || how == io.EOF:
		verifv.Assert(err == nil, "leaving normally is reported as an error")
	case how == odd:
		verifv.Assert(err == odd, "a failing terminal is not reported")
	default:
		verifv.Assert(err == ErrInterrupt, "an interrupt is not reported as one")
	}
	verifv.Assert(len(verifv.History) == len(want), "not exactly the lines that were run are remembered")
	for i := range want {
		verifv.Assert(verifv.History[i] == want[i], "a line is remembered differently")
	}
	verifv.Reach("done")
}

// Many entries and lines.
func Harness_E01_many() {
	verifv.Bound("60 (thorough 400) entries and one with a name of any two letters, completing none or one letter; 120 (thorough 600) lines typed")
	u := newUI()
	n := verifv.Pick(60, 400)
	var names, lines []string
	h := &hist{}
	for i := 0; i < n; i++ {
		names = append(names, "m"+strconv.Itoa(i))
		h.entry("e"+strconv.Itoa(i), names[i])
	}
	name := verifv.String("name", 2)
	verifv.Assume(verifv.And(verifv.InSet(name[0], "almz"), name[1] >= 'a', name[1] <= 'z'))
	h.entry("s", name)
	names = append(names, name)
	u.store.Log = h.log
	typed := []string{"", "m", "m5"}[verifv.Choose("typed", 3)]
	var not []string
	for _, w := range names {
		if w != typed {
			not = append(not, w)
		}
	}
	offers("show ", typed, append(not, func() (is []string) {
		if len(not) < len(names) {
			is = append(is, typed)
		}
		return is
	}()...))
	if verifv.Choose("history", 2) == 0 {
		return
	}
	for i := 0; i < 2*n; i++ {
		lines = append(lines, "ls x"+strconv.Itoa(i%(n+7)))
	}
	verifv.Assert(session(u, lines...) == nil, "the session ended")
	verifv.Assert(len(verifv.History) == len(lines), "not exactly the lines that were run are remembered")
	for i := range lines {
		verifv.Assert(verifv.History[i] == lines[i], "a line is remembered differently")
	}
	verifv.Reach("remembered")
}
