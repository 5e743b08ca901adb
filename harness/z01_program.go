// package-dir: .
package main

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// untouched asserts that the file holds what it did, nothing else is there and
// no operation changed it in between.
func untouched(what, path string, before []byte, there bool) {
	data, ok := verifv.GetFile(path)
	verifv.Assert(ok == there && verifv.EqB(data, before), what+" changed the file")
	for _, op := range verifv.FSLog {
		for _, w := range []string{"write ", "rename ", "remove ", "truncate ", "chmod "} {
			verifv.Assert(!strings.HasPrefix(op, w) || !strings.Contains(op, path), what+" touched the file")
		}
	}
}

// Leaving a session.
func Harness_Z01_leave() {
	verifv.Bound("a file (or none yet) opened, up to two (thorough three) commands (a value of any letter set, an entry added, aborted or removed, looking, a syntax error, an unknown command) and left with exit, the end of input, an interrupt at the prompt, in a question or in the password menu, or a failing terminal; with or without --no-sync and --no-clear-clip; the clipboard failing, closing the terminal failing")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old")
	h.entry("f", "other", "k", "old")
	var before []byte
	there := verifv.Choose("exists", 2) == 1
	log := h.log
	if there {
		before = sealed(log, newRing("pw"))
		verifv.PutFile(testFile, append([]byte(nil), before...))
	} else {
		log = nil
	}
	st, _ := refState(log)
	flags := map[string]string{"no-color": "true"}
	if verifv.Choose("nosync", 2) == 1 {
		flags["no-sync"] = "true"
	}
	keep := verifv.Choose("noclear", 2) == 1
	if keep {
		flags["no-clear-clip"] = "true"
	}
	n := verifv.Choose("commands", verifv.Pick(3, 4))
	var lines []string
	adding := 0
	for i := 0; i < n; i++ {
		switch verifv.Choose("command", 8) {
		case 0:
			v := verifv.String("value", 1)
			verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
			lines = append(lines, "set some/entry k "+v)
			if there && st["e"] != nil {
				st["e"]["k"] = v
			}
		case 1:
			lines = append(lines, "add new", "", "", "m", "x", "x")
			has := false
			for _, e := range st {
				has = has || e["name"] == "new"
			}
			if has {
				lines = lines[:len(lines)-5]
				break
			}
			st["new"] = map[string]string{"name": "new", "pass": "x"}
			adding++
		case 2:
			lines = append(lines, "rm some/entry")
			if st["e"] != nil {
				lines = append(lines, "some/entry")
				delete(st, "e")
			}
		case 3:
			lines = append(lines, "rm other")
			if st["f"] != nil {
				lines = append(lines, "no")
			}
		case 4:
			lines = append(lines, "ls")
		case 5:
			lines = append(lines, "set")
		case 6:
			lines = append(lines, "nonsense")
		default:
			lines = append(lines, "show other")
		}
	}
	end := verifv.Choose("end", 6)
	aborted := end >= 2
	switch end {
	case 0:
		lines = append(lines, "exit")
	case 3:
		lines = append(lines, "add newer")
	case 4:
		lines = append(lines, "set other pass")
		if !there {
			lines[len(lines)-1] = "add newer"
			lines = append(lines, "", "")
		}
	}
	broken := errors.New("the terminal broke")
	k := 0
	ask(60, func(_ int, prompt, said string) (string, error) {
		if k < len(lines) && (has(prompt, "(") && has(prompt, ")> ") || k > 0 && !has(prompt, "passphrase: ")) {
			k++
			return lines[k-1], nil
		}
		if has(prompt, "passphrase: ") {
			return "pw", nil
		}
		if has(prompt, "password: ") {
			k++
			return lines[k-1], nil
		}
		if end == 1 {
			return "", io.EOF
		}
		if end == 5 {
			return "", broken
		}
		return "", verifv.Readline_ErrInterrupt
	})
	verifv.ClipFault = verifv.Choose("clip", 2) == 1
	badClose := verifv.Choose("close", 2) == 1
	if badClose {
		verifv.CloseErr = broken
	}
	got := run(flags, "")
	verifv.Assert(k == len(lines), "the session ended early")
	verifv.Assert(verifv.TermClosed == 1, "the terminal was not put back exactly once")
	switch {
	case keep:
		verifv.Assert(len(verifv.Clip) == 0, "the clipboard was cleared against the user's wish")
	case !verifv.ClipFault:
		verifv.Assert(len(verifv.Clip) == 1 && verifv.Clip[0] == "", "the clipboard was not cleared")
	}
	if aborted {
		verifv.Assert(got == "exit1", "an abort does not give a failure status: "+got)
		untouched("an abort", testFile, before, there)
		verifv.Reach("aborted")
		return
	}
	if badClose {
		verifv.Assert(got == "exit1", "a failure to restore the terminal gives no failure status: "+got)
	} else {
		verifv.Assert(got == "", "leaving gives a failure status: "+got)
	}
	data, ok := verifv.GetFile(testFile)
	verifv.Assert(ok, "leaving did not save the file")
	saved := unsealed("leaving", data, keyring{pass: "pw"})
	verifv.Assert(len(saved) >= len(log) && vSameLog(saved[:len(log)], log), "leaving lost records")
	final, ok := refState(saved)
	verifv.Assert(ok && len(final) == len(st), "leaving saved another number of entries than there are")
	for id, e := range st {
		if id == "new" {
			for fid, f := range final {
				if f["name"] == "new" {
					id = fid
				}
			}
		}
		f := final[id]
		verifv.Assert(f != nil, "leaving did not save an entry")
		for key, v := range e {
			verifv.Assert(verifv.EqS(f[key], v), "leaving did not save a change")
		}
	}
	verifv.Reach("saved")
}

// Opening fails.
func Harness_Z01_open() {
	verifv.Bound("a file that is damaged, of another version, of another program, with an unreadable or no history inside, of a wrong passphrase or unknown user, a directory or in a place that is none; a new file with an empty or mistyped passphrase; every question interrupted, ended or failing; no terminal; every file operation failing")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old")
	ring := newRing("pw")
	file := sealed(h.log, ring)
	there := true
	pass, again, user := "pw", "pw", ""
	var stop error
	stopAt := 0
	errs := []error{io.EOF, verifv.Readline_ErrInterrupt, errors.New("the terminal broke")}
	flags := map[string]string{"no-color": "true"}
	path := testFile
	why := verifv.Choose("why", 11)
	switch why {
	case 0:
		r := &remote{id: "x", status: remGarbage, log: h.log, ring: ring}
		place([]*remote{r})
		file = r.orig
	case 1:
		r := &remote{id: "x", status: remBadLog, log: h.log, ring: ring}
		place([]*remote{r})
		file = r.orig
	case 2:
		pass = []string{"", "px", "pww"}[verifv.Choose("pass", 3)]
	case 3, 4:
		there = false
		if why == 3 {
			pass, again = []string{"", "pw"}[verifv.Choose("pass", 2)], "px"
			if pass == "" {
				again = ""
			}
		} else {
			stop, stopAt = errs[verifv.Choose("stop", 3)], 1+verifv.Choose("at", 2)
		}
	case 5:
		stop, stopAt = errs[verifv.Choose("stop", 3)], 1
	case 6: // a directory
		there = false
		verifv.PutDir(testFile)
	case 7:
		verifv.TermOpenErr = errs[2]
	case 8: // below a file
		there = false
		path = "/home/u/file/x"
		verifv.PutFile("/home/u/file", []byte("x"))
		flags["file"] = path
	case 9:
		verifv.FSFault = verifv.FSStep + verifv.Choose("fault", 2)
	default: // a user that is not there
		u := newUI()
		c := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b", in: u.in, store: u.store}
		key, salt := ring.key, ring.salt
		c.pass, c.key, c.salt = "pw", key, salt
		ask(20, func(_ int, prompt, said string) (string, error) { return "pw", nil })
		verifv.Assert(c.adduser("mary") == nil, "a user cannot be added")
		file = sealed(c.store.Log, ringOf(c))
		user = []string{"", "mar", "Mary", "joe"}[verifv.Choose("user", 4)]
		resetMain()
	}
	if there {
		verifv.PutFile(path, append([]byte(nil), file...))
	}
	files := strings.Join(verifv.Files(), " ")
	asked := 0
	ask(10, func(_ int, prompt, said string) (string, error) {
		asked++
		if asked == stopAt {
			return "", stop
		}
		switch {
		case has(prompt, "verify"):
			return again, nil
		case has(prompt, "passphrase: "):
			return pass, nil
		case has(prompt, " user: "):
			return user, nil
		}
		verifv.Assert(false, "a file that cannot be opened is worked on")
		return "", io.EOF
	})
	verifv.TermClosed, verifv.FSLog = 0, nil
	step := verifv.FSStep
	got := run(flags, "")
	fault := verifv.FSFault
	noMishap()
	_ = step
	if why == 9 && fault >= verifv.FSStep {
		return
	}
	if !there {
		file = nil
	}
	verifv.Assert(got == "exit1", "a file that cannot be opened gives no failure status: "+got)
	untouched("failing to open", path, file, there)
	verifv.Assert(strings.Join(verifv.Files(), " ") == files, "failing to open leaves files")
	verifv.Assert(has(verifv.Output(), "failed to"), "failing to open is not reported")
	if why != 7 {
		verifv.Assert(verifv.TermClosed == 1, "the terminal was not put back")
	}
	verifv.Reach("failed")
}

// Choosing the passphrase of a new file.
func Harness_Z01_new() {
	verifv.Bound("a new file whose passphrase is any 1..3 letters, typed again as any 0..3 letters")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	newUI()
	letters := func(label string, n int) string {
		s := verifv.String(label, n)
		for i := range []byte(s) {
			verifv.Assume(verifv.Or(verifv.And(s[i] >= 'a', s[i] <= 'c'), verifv.And(s[i] >= 'A', s[i] <= 'C')))
		}
		return s
	}
	pass := letters("pass", 1+verifv.Choose("length", 3))
	again := letters("again", verifv.Choose("length again", 4))
	asked := 0
	ask(10, func(_ int, prompt, said string) (string, error) {
		asked++
		switch {
		case has(prompt, "verify"):
			return again, nil
		case has(prompt, "passphrase: "):
			return pass, nil
		case asked == 3:
			return "add x/y", nil
		}
		return "", io.EOF
	})
	got := run(map[string]string{"no-color": "true"}, "")
	_, there := verifv.GetFile(testFile)
	if verifv.EqS(pass, again) {
		verifv.Assert(got == "" && there, "a new file is not made with a passphrase typed twice: "+got)
		verifv.Reach("made")
	} else {
		verifv.Assert(got == "exit1" && !there, "a file is made with a mistyped passphrase")
		verifv.Assert(asked == 2, "a file that cannot be opened is worked on")
		verifv.Reach("refused")
	}
}

// A file that opens but cannot be written again.
func Harness_Z01_unsavable() {
	verifv.Bound("a file of two users in which one of the other's three values is not hexadecimal any more, or has half its length; a change or none, left normally or by an interrupt, with and without --no-sync")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old")
	ring := newRing("pw")
	c := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b", in: u.in, store: u.store}
	c.store.Log = h.log
	c.pass, c.key, c.salt = "pw", ring.key, ring.salt
	ask(20, func(_ int, prompt, said string) (string, error) { return "y", nil })
	verifv.Assert(c.adduser("mary") == nil && c.adduser("zoe") == nil, "users cannot be added")
	zoe := ""
	st, _ := refState(c.store.Log)
	for id, e := range st {
		if has(e["name"], "zoe") {
			zoe = id
		}
	}
	key := []string{blobformat.KeySalt, blobformat.KeyIV, blobformat.KeyMKey}[verifv.Choose("key", 3)]
	v := st[zoe][key]
	verifv.Assert(len(v) > 16, "a user has no credentials")
	if verifv.Choose("how", 2) == 0 {
		v = "x" + v[1:]
	} else {
		v = v[:len(v)/2]
	}
	before := sealedFor(c.store.Log, append(cpTxs(c.store.Log), txlogs.Tx{Time: syncT0 + 1e15, Kind: txlogs.TxSetKey, UUID: zoe, Key: key, Value: v}), ringOf(c))
	resetMain()
	verifv.PutFile(testFile, append([]byte(nil), before...))
	change := verifv.Choose("change", 2) == 1
	stop := []error{io.EOF, verifv.Readline_ErrInterrupt}[verifv.Choose("stop", 2)]
	said := false
	ask(20, func(_ int, prompt, _ string) (string, error) {
		switch {
		case has(prompt, " user: "):
			return "mary", nil
		case has(prompt, "passphrase: "):
			return "pw", nil
		case change && !said:
			said = true
			return "set some/entry k new", nil
		}
		return "", stop
	})
	flags := map[string]string{"no-color": "true"}
	nosync := verifv.Choose("nosync", 2) == 1
	if nosync {
		flags["no-sync"] = "true"
	}
	got := run(flags, "")
	if got != "" {
		verifv.Assert(got == "exit1", "a file that cannot be saved gives no failure status: "+got)
		verifv.Assert(has(verifv.Output(), "failed to") || stop != io.EOF && has(verifv.Output(), "did not save"), "a file that cannot be saved is not reported")
		untouched("failing to save", testFile, before, true)
		verifv.Reach("unsavable")
		return
	}
	verifv.Assert(!change, "a change was not saved and nothing said")
}

// Synchronising when opening or leaving fails or is interrupted.
func Harness_Z01_sync() {
	verifv.Bound("a file with a remote that is good, has an edit of its own, is missing, unreadable, garbage, locked or has a conflicting deletion; the questions on it interrupted or ended, or the conflict resolved either way; left with or without a change; with and without --no-sync")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	r := &remote{id: "a", status: verifv.Choose("remote", remStates+2)}
	u, base := syncUI([]*remote{r})
	conflict, edited := r.status == remStates, r.status == remStates+1
	mine := cpTxs(base)
	r.log = cpTxs(base)
	if edited {
		r.log = append(r.log, txlogs.Tx{Time: syncT0 + 500, Kind: txlogs.TxSetKey, UUID: "e", Key: "r", Value: "theirs"})
	}
	if conflict {
		r.log = append(r.log, txlogs.Tx{Time: syncT0 + 500, Kind: txlogs.TxDelete, UUID: "e"})
		mine = append(mine, txlogs.Tx{Time: syncT0 + 600, Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: "mine"})
	}
	if conflict || edited {
		r.status = remGood
	}
	place([]*remote{r})
	before := sealed(mine, ringOf(u))
	verifv.PutFile(testFile, append([]byte(nil), before...))
	flags := map[string]string{"no-color": "true"}
	nosync := verifv.Choose("nosync", 2) == 1
	if nosync {
		flags["no-sync"] = "true"
	}
	change := verifv.Choose("change", 2) == 1
	answer := verifv.Choose("answer", 4)
	stopped := false
	wrong := 0
	opened := false
	k := 0
	ask(60, func(_ int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "passphrase: ") && !opened:
			opened = true
			return "pw", nil
		case has(prompt, ")> "):
			k++
			if change && k == 1 {
				return "set sync/a note x", nil
			}
			return "", io.EOF
		}
		if answer > 1 && has(prompt, "y/n") {
			return []string{"y", "n"}[answer-2], nil
		}
		// a question about the remote
		switch answer {
		case 0:
			stopped = true
			return "", verifv.Readline_ErrInterrupt
		case 1:
			if !has(prompt, "passphrase") {
				stopped = true
			}
			return "", io.EOF
		case 2:
			if has(prompt, "passphrase") {
				if wrong++; wrong > 1 {
					return "", io.EOF
				}
				return "zz", nil
			}
			return "r", nil
		}
		if has(prompt, "passphrase") {
			if wrong++; wrong > 1 {
				return "", io.EOF
			}
			return "wrong", nil
		}
		return "d", nil
	})
	verifv.FSLog, verifv.TermClosed = nil, 0
	got := run(flags, "")
	verifv.Assert(verifv.TermClosed == 1, "the terminal was not put back exactly once")
	data, ok := verifv.GetFile(testFile)
	verifv.Assert(ok, "the file is lost")
	if failed(got) {
		verifv.Assert(got == "exit1", "the program ended with "+got)
		untouched("a failed or interrupted session", testFile, before, true)
		verifv.Assert(stopped, "a session failed although nothing was interrupted")
		verifv.Reach("failed")
		return
	}
	pass := "pw"
	if r.status == remLocked && answer == 2 && !nosync {
		pass = "zz"
	}
	log := unsealed("leaving", data, keyring{pass: pass})
	verifv.Assert(holdsAll(log, base, ""), "leaving lost records")
	if change {
		verifv.Assert(log[len(log)-1].Key == "note" && log[len(log)-1].Value == "x", "leaving did not save a change")
	}
	if nosync {
		want := len(mine)
		if change {
			want += 2
		}
		verifv.Assert(len(log) == want, "without sync something came from elsewhere")
		_, wrote := r.now()
		verifv.Assert(!wrote, "without sync a remote was written")
		verifv.Reach("no sync")
		return
	}
	if edited {
		verifv.Assert(holdsAll(log, r.log, ""), "leaving lost what came from the remote")
		verifv.Reach("merged")
	}
	verifv.Reach("saved")
}

// The other ways to use the program.
func Harness_Z01_other() {
	verifv.Bound("version, help, gen (accepted, interrupted, random source failing), a bad time, and export and import ending well or not, on a file that is there")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old", blobformat.KeyPass, "p")
	before := sealed(h.log, newRing("pw"))
	verifv.PutFile(testFile, append([]byte(nil), before...))
	flags := map[string]string{"no-color": "true"}
	cmd := ""
	var pos []string
	what := verifv.Choose("what", 9)
	bad := false
	stop := []error{nil, io.EOF, verifv.Readline_ErrInterrupt}[verifv.Choose("stop", 3)]
	opens := false
	verifv.Programs = map[string]bool{"lpass": true}
	switch what {
	case 0:
		cmd = "version"
	case 1:
		flags["help"] = "true"
	case 2:
		cmd = "gen"
		bad = stop != nil
	case 3:
		cmd = "gen"
		verifv.RandFault = verifv.RandReads()
		bad = true
	case 4:
		flags["time"] = []string{"x", "2017-07-14", "2017-13-14 02:40:00"}[verifv.Choose("time", 3)]
		bad = true
	case 5, 6:
		cmd, pos = "export", []string{"/home/u/out.csv"}
		opens = true
		if what == 6 {
			bad = true
			switch verifv.Choose("export", 2) {
			case 0:
				pos = []string{"/none/out.csv"}
			default:
				flags["format"] = "xml"
			}
		}
	default:
		cmd = "lpassimport"
		opens = true
		bad = what == 8
		verifv.ExecHook = func(c *verifv.Exec_Cmd) error {
			if bad && verifv.Choose("import", 2) == 0 {
				return verifv.ErrInjected
			}
			s := "url,username,password,extra,name,grouping,fav\n"
			if bad {
				s += "http://x,u,p\n"
			} else {
				s += "http://x,u,p,,imported,,0\n"
			}
			io.WriteString(c.Stdout, s)
			return nil
		}
	}
	shown := ""
	ask(20, func(_ int, prompt, said string) (string, error) {
		switch {
		case stop != nil:
			return "", stop
		case has(prompt, "passphrase: "):
			return "pw", nil
		case has(prompt, "u/l/n/b/e/y/c/m/enter/?> "):
			i := strings.LastIndex(said, "password: ")
			verifv.Assert(i >= 0, "no password is shown")
			shown = strings.TrimSuffix(said[i+len("password: "):], "\n")
			return "y", nil
		case what >= 7 && has(prompt, "y"):
			return "y", nil
		}
		return "", io.EOF
	})
	verifv.FSLog = nil
	got := run(flags, cmd, pos...)
	if opens && stop != nil {
		bad = true
	}
	verifv.Assert(failed(got) == bad, "the status does not tell whether it went well: "+got)
	verifv.Assert(!bad || got == "exit1", "the program ended with "+got)
	if bad || what <= 4 {
		untouched("that", testFile, before, true)
		verifv.Reach("untouched")
	}
	if !bad && what == 2 {
		verifv.Assert(len(shown) == 32 && strings.HasSuffix(verifv.Output(), "\n"+shown+"\n") || strings.HasSuffix(verifv.Output(), shown+"\n"), "the password accepted is not the one printed")
		verifv.Reach("generated")
	}
	if !bad && what >= 5 {
		data, ok := verifv.GetFile(testFile)
		verifv.Assert(ok, "the file is lost")
		log := unsealed("leaving", data, keyring{pass: "pw"})
		verifv.Assert(len(log) >= len(h.log) && vSameLog(log[:len(h.log)], h.log), "leaving lost records")
		if what == 7 {
			st, _ := refState(log)
			verifv.Assert(len(st) == 2, "what was imported is not saved")
			verifv.Reach("imported")
		} else {
			verifv.Assert(len(log) == len(h.log), "an export changed the file")
			verifv.Reach("exported")
		}
	}
}

// Which file and time are used.
func Harness_Z01_flags() {
	verifv.Bound("a file given with -f (also the default's own name or a relative one), by $BPASS, both or neither; any of these")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	newUI()
	places := []string{testFile, "/home/u/env", "/home/u/flag", "/cwd/rel"}
	for i, p := range places {
		h := &hist{t: syncT0}
		h.entry("e", "entry"+string(rune('0'+i)), "k", "v")
		verifv.PutFile(p, sealed(h.log, newRing("pw")))
	}
	want := 0
	if verifv.Choose("env", 2) == 1 {
		verifv.Env["BPASS"] = places[1]
		want = 1
	}
	flags := map[string]string{"no-color": "true"}
	if f := verifv.Choose("flag", 4); f > 0 {
		flags["file"] = []string{"/home/u/flag", "rel", testFile}[f-1]
		want = []int{2, 3, 0}[f-1]
	}
	types(cred{"", "pw"}, "ls", "set k k2 v")
	lines := []string{"ls", "set entry" + string(rune('0'+want)) + " k2 v"}
	types(cred{"", "pw"}, lines...)
	got := run(flags, "")
	verifv.Assert(got == "", "the program failed: "+got)
	for i, p := range places {
		data, _ := verifv.GetFile(p)
		log := unsealed("leaving", data, keyring{pass: "pw"})
		verifv.Assert((log[len(log)-1].Key == "k2") == (i == want), "another file than the one asked for is used")
	}
	verifv.Reach("used")
}

// A long session.
func Harness_Z01_long() {
	verifv.Bound("60 (thorough 400) changes, one of them any letter, in one session on a file with 30 (thorough 200) entries; left by exit or the end of input; opened again and changed again")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(200000000)
	newUI()
	h := &hist{t: syncT0}
	n := verifv.Pick(30, 200)
	for i := 0; i < n; i++ {
		h.entry("e"+strconv.Itoa(i), "entry/"+strconv.Itoa(i)+".", "k", strings.Repeat("old", i))
	}
	verifv.PutFile(testFile, sealed(h.log, newRing("pw")))
	st, _ := refState(h.log)
	v := verifv.String("value", 1)
	verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z'))
	var lines []string
	for i := 0; i < 2*n; i++ {
		k := i * 7 % n
		val := "new" + strconv.Itoa(i)
		if i == n {
			val = v
		}
		lines = append(lines, "set entry/"+strconv.Itoa(k)+". k "+val)
		st["e"+strconv.Itoa(k)]["k"] = val
	}
	if verifv.Choose("exit", 2) == 1 {
		lines = append(lines, "exit")
	}
	go1 := func(lines ...string) {
		left := append([]string(nil), lines...)
		ask(len(lines)+20, func(n int, prompt, said string) (string, error) {
			if has(prompt, "passphrase: ") {
				return "pw", nil
			}
			if len(left) == 0 {
				return "", io.EOF
			}
			l := left[0]
			left = left[1:]
			return l, nil
		})
		verifv.Assert(run(map[string]string{"no-color": "true"}, "") == "", "the session failed")
		data, _ := verifv.GetFile(testFile)
		log := unsealed("after the session", data, keyring{pass: "pw"})
		verifv.Assert(len(log) >= len(h.log) && vSameLog(log[:len(h.log)], h.log), "history is lost")
		h.log = log
		got, ok := refState(log)
		verifv.Assert(ok && len(got) == len(st), "an entry is lost or comes up")
		for id, e := range st {
			for k, v := range e {
				verifv.Assert(verifv.EqS(got[id][k], v), "a change is not saved")
			}
		}
	}
	go1(lines...)
	st["e3"]["k"] = "again"
	go1("set entry/3. k again")
	verifv.Reach("saved")
}
