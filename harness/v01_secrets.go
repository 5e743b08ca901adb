// package-dir: .
package main

import (
	"io"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// secretsOf are passphrases somebody may have.
type secretsOf struct{ open, wrong, fresh string }

// seen is what somebody looking at the screen or the list of processes learns.
type seen struct{ end, out, history, started, asked string }

// v01Session makes a file (0: none, 1: of one user, 2: of several), runs the
// program on it and gives it a command; whatever is asked for without an echo
// is answered with the passphrases p.
func v01Session(p secretsOf, file, cmd int, wrong, pin bool) seen {
	verifv.ResetEnv()
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	if file > 0 {
		u := newFile(p.open)
		if file == 2 {
			typing(p.open, p.open)
			verifv.Assert(u.adduser("ann") == nil, "adduser failed")
		}
		id, err := u.store.New("e")
		verifv.Assert(err == nil, "adding an entry failed")
		u.store.Set(id, "k", "v")
		verifv.Assert(u.saveBlob() == nil, "the file could not be saved")
	}
	verifv.ClearOutput()
	verifv.History = nil
	verifv.Started = nil
	lines := [][]string{{"passwd"}, {"adduser bo"}, {"rekey"}, {"set e pass"}, {"add f"}, {"addsync scp"}}[cmd]
	asked := ""
	hidden, opened := 0, false
	secret := func(prompt string) string {
		asked += prompt + "\n"
		hidden++
		if !opened && (file > 0 || hidden > 2) {
			opened = true
		} else if opened {
			return p.fresh
		}
		if wrong && hidden == 2-file%2-file/2 {
			return p.wrong
		}
		return p.open
	}
	if pin {
		verifv.PinHook = func(prompt string) (string, error) { return secret(prompt), nil }
	}
	k := 0
	verifv.LineHook = func(prompt string, hide bool) (string, error) {
		if hide {
			verifv.Assert(!pin, "a passphrase is asked for at the terminal although there is pinentry")
			return secret(prompt), nil
		}
		asked += prompt + "\n"
		verifv.Assert(!has(prompt, "passphrase") && !has(prompt, "password"), "a passphrase is asked for with an echo")
		switch {
		case has(prompt, ")> ") && !has(prompt, "(22)"):
			opened = true
			if k++; k <= len(lines) {
				return lines[k-1], nil
			}
			return "", io.EOF
		case has(prompt, "u/l/n/b/e"):
			return "m", nil
		case has(prompt, ".bpass user: "):
			return "ann", nil
		case prompt == "> ":
			return "3", nil
		case has(prompt, "port"):
			return "", nil
		}
		return "x", nil
	}
	s := seen{end: run(map[string]string{"no-sync": "true"}, "")}
	s.out, s.history, s.asked = verifv.Output(), strings.Join(verifv.History, "\n"), asked
	for _, c := range verifv.Started {
		s.started += strings.Join(c, " ") + "\n"
	}
	verifv.Assert(hidden > 0, "the passphrase was not asked for")
	if !wrong {
		verifv.Assert(s.end == "" && k > len(lines), "the session failed")
	}
	return s
}

// Nothing that is shown depends on a passphrase.
func Harness_V01_screen() {
	verifv.Bound("two runs of the program which differ only in the passphrases, each of any 1..3 bytes (thorough 4; letters where they are stored in an entry; when opening with a wrong one: of four): a new file, one of one user or one of two, opened with the right or a wrong passphrase (both runs alike), asked for by pinentry or the terminal; then passwd, adduser (which shows the new user's passphrase), rekey, set pass, add or addsync with a passphrase typed in, leaving and saving")
	file, cmd := verifv.Choose("file", 3), 0
	wrong, pin := verifv.Choose("wrong", 2) == 1, verifv.Choose("pinentry", 2) == 1
	if !wrong {
		cmd = verifv.Choose("command", 6)
	}
	n := 1 + verifv.Choose("length", verifv.Pick(2, 3))
	p := secretsOf{verifv.String("open", n), verifv.String("wrong", 2), verifv.String("fresh", 3-n%2)}
	if cmd >= 3 {
		for i := range []byte(p.fresh) {
			verifv.Assume(verifv.And(p.fresh[i] >= 'a', p.fresh[i] <= 'z'))
		}
	}
	if cmd == 1 {
		p.fresh = "a fresh one" // shown, to be handed to the new user
	}
	if wrong && file > 0 {
		p.open, p.wrong = "right", []string{"", "righ", "right\n", "Right"}[verifv.Choose("which", 4)]
	} else if wrong {
		verifv.Assume(verifv.Not(verifv.EqS(p.open, p.wrong)))
	}
	a := v01Session(p, file, cmd, wrong, pin)
	b := v01Session(secretsOf{"an open one", "a wrong one", "a fresh one"}, file, cmd, wrong, pin)
	verifv.Assert(a.end == b.end, "how the program ends tells something about the passphrase")
	verifv.Assert(verifv.EqS(a.out, b.out), "what is printed depends on the passphrase")
	verifv.Assert(verifv.EqS(a.history, b.history), "the line history depends on the passphrase")
	verifv.Assert(verifv.EqS(a.started, b.started), "what other programs are told depends on the passphrase")
	verifv.Assert(verifv.EqS(a.asked, b.asked), "what is asked depends on the passphrase")
	if wrong {
		verifv.Assert(a.end == "exit1", "a wrong passphrase is no failure")
		verifv.Reach("wrong")
	} else {
		verifv.Reach("right")
	}
}

// Nothing that is stored or sent shows what is in the store.
func Harness_V01_stored() {
	verifv.Bound("a new file, one of one user or one of two, with a file and an scp remote, both missing, in step or with an edit of their own; two of eleven commands (the second one of four, thorough of all) (values set, an entry added, renamed, labelled or edited, users and passphrases changed, a target added, synchronising, looking at it), leaving and saving; every write to a file, everything sent and every program started")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	marks := []string{"PASSPHRASEmark", "VALUEmark", "NAMEmark", "USERmark", "KEYmark", "LABELmark", "labelmark", "FRESHmark", "HOSTmark"}
	pass := marks[0]
	file := verifv.Choose("file", 3)
	rs := []*remote{{id: "a"}, {id: "b", scp: true}}
	state := verifv.Choose("remotes", 3)
	user := ""
	if file > 0 {
		u := newFile(pass)
		if file == 2 {
			user = "USERmark"
			typing(pass, pass)
			verifv.Assert(u.adduser(user) == nil, "adduser failed")
		}
		h := &hist{log: u.store.Log, t: verifv.Clock()}
		h.entry("e", "NAMEmark", "KEYmark", "VALUEmark", "pass", "VALUEmark")
		for _, r := range rs {
			r.name = "sync/" + r.id
			h.entry(r.id, r.name, blobformat.KeySync, "true", blobformat.KeyURL, r.url())
		}
		u.store.Log = h.log
		verifv.Assert(u.store.UpdateSnapshot() == nil, "the history does not apply")
		verifv.Assert(u.saveBlob() == nil, "the file could not be saved")
		verifv.SetClock(h.t + 1000000000)
		for _, r := range rs {
			r.ring = ringOf(u)
			r.status, r.log = remGood, h.log
			switch state {
			case 0:
				r.status = remMissing
			case 1:
				r.log = append(cpTxs(h.log), txlogs.Tx{Time: h.t + 100, Kind: txlogs.TxSetKey, UUID: "e", Key: "r" + r.id, Value: "VALUEmark"})
			}
		}
	}
	place(rs)
	lines := [][]string{
		{"set NAMEmark KEYmark VALUEmark2"}, {"add NAMEmark/2"}, {"mv NAMEmark NAMEmark/3"}, {"label NAMEmark", "LABELmark", ""},
		{"adduser USERmark2"}, {"passwd"}, {"rekeyall", "y"}, {"sync"}, {"addsync file"}, {"show NAMEmark"}, {"edit NAMEmark KEYmark"},
	}
	first, second := verifv.Choose("first", 11), verifv.Choose("second", verifv.Pick(4, 11))
	do := append(append([]string{}, lines[first]...), lines[[]int{5, 0, 1, 2, 3, 4, 6, 7, 8, 9, 10}[second]]...)
	verifv.Env = map[string]string{"EDITOR": "vi"}
	verifv.Programs = map[string]bool{"vi": true}
	edited := ""
	verifv.ExecHook = func(c *verifv.Exec_Cmd) error {
		edited += c.Args[len(c.Args)-1] + "\n"
		return nil
	}
	verifv.ClearOutput()
	opened := false
	k, tries := 0, 0
	verifv.LineHook = func(prompt string, hide bool) (string, error) {
		if hide && !opened {
			return pass, nil
		} else if hide && has(prompt, "sync/") {
			if tries++; tries > 4 {
				return "", io.EOF
			}
			return []string{"FRESHmark", pass}[tries%2], nil
		} else if hide {
			return "FRESHmark", nil
		}
		switch {
		case has(prompt, ".bpass user: "):
			return user, nil
		case has(prompt, "u/l/n/b/e"):
			return "m", nil
		case has(prompt, "path: "):
			return "/cwd/HOSTmark", nil
		case has(prompt, "email: ") || has(prompt, " user: ") || prompt == "user: ":
			return "VALUEmark3", nil
		}
		opened = true
		if k < len(do) {
			k++
			return do[k-1], nil
		}
		return "", io.EOF
	}
	verifv.Wrote = nil
	verifv.Assert(run(nil, "") == "", "the session failed")
	verifv.Assert(!has(verifv.Output(), pass), "a passphrase is printed")
	verifv.Assert(!has(strings.Join(verifv.History, "\n"), pass) && !has(strings.Join(verifv.History, "\n"), "FRESHmark"), "a passphrase is kept in the line history")
	saved := false
	for _, w := range verifv.Wrote {
		if has(edited, w.Path+"\n") {
			continue
		}
		saved = true
		for _, m := range marks {
			verifv.Assert(!has(string(w.Data), m), "a secret is written to "+w.Path)
		}
	}
	verifv.Assert(saved, "nothing was saved")
	for _, r := range rs {
		for _, d := range r.sent {
			for _, m := range marks {
				verifv.Assert(!has(string(d), m), "a secret is sent to a remote")
			}
			verifv.Reach("sent")
		}
	}
	for _, c := range verifv.Started {
		for _, m := range marks {
			verifv.Assert(!has(strings.Join(c, " "), m), "a secret is told to another program")
		}
	}
}
