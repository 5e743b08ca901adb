// package-dir: .
package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/aarondl/bpass/verifv"
)

var errBroken = errors.New("broken")

// menu follows the password menu: the settings chosen so far and the password
// shown last.
type menu struct {
	length int
	mins   []int
	shown  string
	reads  int
}

func some(few bool, a, b int) int {
	if few {
		return a
	}
	return b
}

// see checks what the menu printed before it asks; fresh tells that a new
// password is due.
func (m *menu) see(said string, fresh bool) {
	if !refPossible(m.length, m.mins) {
		verifv.Assert(!has(said, "password: "), "a password is shown although none can satisfy the settings")
		if fresh {
			verifv.Assert(has(said, "Could not"), "settings nothing can satisfy are not reported")
		}
		m.shown = ""
		return
	}
	end := "password: " + strings.Repeat("x", m.length) + "\n"
	i := len(said) - len(end)
	verifv.Assert(i >= 0 && said[i:i+10] == "password: " && said[len(said)-1] == '\n', "no password of the chosen length is shown")
	p := said[i+10 : len(said)-1]
	if fresh {
		if m.length > 0 {
			verifv.Assert(verifv.RandReads() > m.reads, "a new password is not made of new randomness")
		}
		assertPolicy(p, m.length, m.mins)
	} else {
		verifv.Assert(verifv.EqS(p, m.shown), "the password changes without being asked to")
	}
	m.shown = p
}

// Harness_G03_menu goes through the menu.
func Harness_G03_menu() {
	verifv.Bound("up to 3 steps - another password, each class (with 3 steps fewer classes and numbers unless thorough) switched, given a minimum of any digit, -1 or no number, a length of 0, 8, -1 or no number, help, copying, taking, typing up to two characters and up to two to verify, an unknown command - then taking it; from the default settings or a length of 3; a fixed random stream")
	u := newUI()
	m := &menu{length: 32, mins: make([]int, 5)}
	verifv.RandMode = 2
	steps := verifv.Choose("steps", 4)
	few := steps > verifv.Pick(2, 3)
	short := steps > 0 && !few && verifv.Choose("short", 2) == 1
	fresh, first := true, true
	typed, verify, manual := "", "", 0
	taken, broken := false, false
	n := 0
	ask(30, func(_ int, prompt, said string) (string, error) {
		if manual == 1 {
			verifv.Assert(has(prompt, "enter new password: "), "the password typed is not asked for")
			manual = 2
			return typed, nil
		}
		if manual == 2 {
			verifv.Assert(has(prompt, "verify password: "), "the password typed is not verified")
			manual = 3
			return verify, nil
		}
		if manual == 3 {
			verifv.Assert(verifv.Not(verifv.EqS(typed, verify)), "a password typed twice is not taken")
			verifv.Assert(has(said, "did not match"), "a mistyped password is not reported")
			manual = 0
		}
		verifv.Assert(has(prompt, "u/l/n/b/e/y/c/m/enter/?> "), "an unknown question: "+prompt)
		verifv.Assert(!taken, "a password taken is not given")
		m.see(said, fresh)
		if first {
			first = false
			m.reads = verifv.RandReads()
			if short {
				m.length = 3
				return "3", nil
			}
		}
		m.reads = verifv.RandReads()
		n++
		if n > steps {
			if !refPossible(m.length, m.mins) {
				if broken {
					return "", errBroken
				}
				broken, fresh = true, false
				verifv.Reach("impossible")
				return "y", nil
			}
			taken = true
			return "y", nil
		}
		fresh = true
		switch verifv.Choose("what", 9) {
		case 0:
			return "", nil
		case 1:
			i := []int{0, 4, 1, 2, 3}[verifv.Choose("class", some(few, 2, 5))]
			m.mins[i] = verifv.IteI(m.mins[i] >= 0, -1, 0)
			return "ulnbe"[i : i+1], nil
		case 2:
			i := []int{0, 4, 1, 2, 3}[verifv.Choose("class", some(few, 2, 5))]
			cmd := "ulnbe"[i:i+1] + " "
			switch verifv.Choose("number", 3) {
			case 0:
				v := []int{1, 33, 0, 4}[verifv.Choose("minimum", some(few, 2, 4))]
				if steps == 1 && !short {
					v = verifv.Choose("digit", 10)
				}
				m.mins[i] = v
				return cmd + strconv.Itoa(v), nil
			case 1:
				m.mins[i] = -1
				return cmd + "-1", nil
			}
			return cmd + "x", nil
		case 3:
			l := []string{"8", "-1", "0", "4x"}[verifv.Choose("length", some(few, 2, 4))]
			if v, err := strconv.Atoi(l); err == nil {
				m.length = v
			}
			return l, nil
		case 4:
			fresh = false
			return "?", nil
		case 5:
			clips := len(verifv.Clip)
			p := m.shown
			fresh = false
			verifv.ClipFault = false
			was := verifv.LineHook
			verifv.LineHook = func(prompt string, hidden bool) (string, error) {
				if refPossible(m.length, m.mins) {
					verifv.Assert(len(verifv.Clip) == clips+1 && verifv.EqS(verifv.Clip[clips], p), "not the password shown is copied")
				} else {
					verifv.Assert(len(verifv.Clip) == clips, "a password is copied where there is none")
				}
				verifv.LineHook = was
				return was(prompt, hidden)
			}
			return "c", nil
		case 6:
			if refPossible(m.length, m.mins) {
				taken = true
			} else {
				fresh = false
			}
			return "y", nil
		case 7:
			l := [][2]int{{2, 0}, {2, 1}, {2, 2}, {1, 2}, {0, 1}}[verifv.Choose("lengths", 5)]
			typed = verifv.String("typed", l[0])
			verify = verifv.String("verify", l[1])
			manual = 1
			return "m", nil
		}
		return "zz", nil
	})
	p, err := u.getPassword()
	if broken {
		verifv.Assert(err == errBroken && p == "", "a password is taken where there is none")
		return
	}
	verifv.Assert(err == nil, "the menu failed")
	if manual == 3 {
		verifv.Assert(verifv.EqS(typed, verify), "a password verified wrongly is taken")
		verifv.Assert(verifv.EqS(p, typed), "not the password typed is taken")
		verifv.Reach("typed")
		return
	}
	verifv.Assert(taken, "a password is taken before the user took it")
	verifv.Assert(verifv.EqS(p, m.shown), "not the password shown is taken")
	verifv.Observe("p", p)
	verifv.Reach("taken")
}

// Where it goes wrong.
func Harness_G03_failures() {
	verifv.Bound("the terminal, the hidden questions or the random source failing at the first or second use")
	u := newUI()
	verifv.RandMode = 2
	broken := errBroken
	at := verifv.Choose("at", 2)
	what := verifv.Choose("what", 3)
	if what == 0 {
		verifv.RandFault = at
	}
	n := 0
	ask(10, func(_ int, prompt, said string) (string, error) {
		if has(prompt, "?> ") {
			if what == 1 && n == at {
				return "", broken
			}
			n++
			if what == 2 {
				return "m", nil
			}
			return "", nil
		}
		if what == 2 && at == 0 || has(prompt, "verify") {
			return "", broken
		}
		return "pw", nil
	})
	p, err := u.getPassword()
	verifv.Assert(err != nil && p == "", "a failure gives a password")
	verifv.Reach("failed")
}

// The gen command.
func Harness_G03_gen() {
	verifv.Bound("one other password asked for or not, then taken, or the terminal ends; a fixed random stream")
	verifv.RandMode = 2
	newUI()
	more := verifv.Choose("more", 2)
	quit := verifv.Choose("quit", 2) == 1
	shown := ""
	ask(5, func(n int, prompt, said string) (string, error) {
		i := strings.LastIndex(said, "password: ")
		verifv.Assert(i >= 0 && len(said)-i == 10+32+1, "no password is shown")
		shown = said[i+10 : len(said)-1]
		if n < more {
			return "", nil
		}
		if quit {
			return "", verifv.Readline_ErrInterrupt
		}
		verifv.ClearOutput()
		return "y", nil
	})
	end := run(map[string]string{"no-color": "true"}, "gen")
	if quit {
		verifv.Assert(end == "exit1", "giving up does not give a failure status: "+end)
		verifv.Reach("quit")
		return
	}
	verifv.Assert(!failed(end), "generating failed: "+end)
	verifv.Assert(verifv.Output() == shown+"\n", "not exactly the password taken is printed")
	verifv.Assert(len(verifv.Files()) == 0, "generating a password writes files")
	verifv.Reach("printed")
}

// Whatever the random source gives.
func Harness_G03_random() {
	verifv.Bound("two characters of two classes, every random byte; copied, help asked for or another password asked for, then taken")
	u := newUI()
	m := &menu{length: 2, mins: []int{-1, -1, 0, 0, -1}}
	verifv.RandMode = 2
	what := verifv.Choose("what", 4)
	ask(10, func(n int, prompt, said string) (string, error) {
		if n < 4 {
			m.reads = verifv.RandReads()
			if n == 3 {
				verifv.RandMode = 1
			}
			return []string{"u", "l", "e", "2"}[n], nil
		}
		m.see(said, n == 4 || n == 5 && what == 1)
		if n == 5 && what == 2 {
			verifv.Assert(len(verifv.Clip) == 1 && verifv.EqS(verifv.Clip[0], m.shown), "not the password shown is copied")
		}
		m.reads = verifv.RandReads()
		if n == 4 && what < 3 {
			return []string{"?", "", "c"}[what], nil
		}
		return "y", nil
	})
	p, err := u.getPassword()
	verifv.Assert(err == nil, "the menu failed")
	verifv.Assert(verifv.EqS(p, m.shown), "not the password shown is taken")
	verifv.Observe("p", p)
	verifv.Reach("taken")
}
