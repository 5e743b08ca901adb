// package-dir: .
package main

import (
	"strconv"
	"strings"

	"github.com/aarondl/bpass/verifv"
)

// Changing the passphrase of a single-user file, in the session that created
// it or one that opened it.
func Harness_U01_single() {
	verifv.Bound("single-user file, every old and new passphrase of 0..2 bytes (old non-empty), created or opened in this session; passwd or rekey with or without a name; then a second save")
	known(false)
	u01Single()
}

// The same with ciphers and passphrases known.
func Harness_U01_single_known() {
	verifv.Bound("the same with one passphrase each, ciphers computed: exactly those credentials open the file, no former ones")
	known(true)
	u01Single()
}

func u01Single() {
	verifv.RandMode = 2
	old := passText("old")
	u := newFile(old)
	if verifv.Choose("opened", 2) == 1 {
		verifv.Assert(u.saveBlob() == nil, "the new file could not be saved")
		u = reopen(cred{"", old})
	}
	name := []string{"", "bob"}[verifv.Choose("name", 2)]
	pass := old
	before := cpTxs(u.store.Log)
	if verifv.Choose("op", 2) == 0 {
		p := newText("new")
		typing(p, p)
		verifv.Assert(u.passwd(name) == nil, "passwd failed")
		if p != "" {
			pass = p
			verifv.Reach("changed")
		} else {
			verifv.Reach("empty refused")
		}
	} else {
		typing("zz", "zz")
		salt := append([]byte(nil), u.salt...)
		verifv.Assert(u.rekey(name) == nil, "rekey failed")
		verifv.Assert(string(salt) != string(u.salt), "rekeying leaves the key as it was")
		verifv.Reach("rekeyed")
	}
	verifv.Assert(vSameLog(u.store.Log, before), "changing the passphrase of a single-user file changed its entries")
	for i := 0; i < 2; i++ {
		verifv.Assert(u.saveBlob() == nil, "the session cannot save any more")
		openable("after the change", u, cred{"", pass})
		verifv.Assert(u.pass == pass, "the session does not remember the passphrase")
		_, err := u.store.New([]string{"m1", "m2"}[i])
		verifv.Assert(err == nil, "adding an entry failed")
	}
	verifv.Reach("saved")
}

// What changes credentials of a multi-user file.
func Harness_U01_multi() {
	verifv.Bound("files of 1..2 users (thorough 3), every 2-byte passphrase of each and every new one of 0 or 2 bytes; passwd, rekey (no name, own, another's, an unknown name) or adduser (new or existing name) in the creating session or one opened by any user; then a second change or save")
	known(false)
	u01Multi()
}

// The same with ciphers and passphrases known.
func Harness_U01_multi_known() {
	verifv.Bound("the same with one passphrase each, ciphers computed: exactly those credentials open the file, no former ones")
	known(true)
	u01Multi()
}

func u01Multi() {
	verifv.RandMode = 2
	n := 1 + verifv.Choose("users", verifv.Pick(2, 3))
	me := verifv.Choose("me", n)
	u, cs := team(n, me, true)
	before := cpTxs(u.store.Log)
	p := newText("new")
	typing(p, p)
	op := verifv.Choose("op", 3)
	if op == 2 {
		name := []string{"dee", "ann"}[verifv.Choose("newuser", 2)]
		verifv.Assert(u.adduser(name) == nil, "adduser failed")
		if p != "" && name == "dee" {
			cs = append(cs, cred{name, p})
			verifv.Reach("added")
		} else {
			verifv.Assert(vSameLog(u.store.Log, before), "a refused adduser changed something")
			verifv.Reach("not added")
		}
	} else {
		t := verifv.Choose("target", n+2) // a user, nobody given, unknown
		arg, target := "", me
		switch {
		case t < n:
			arg, target = cs[t].user, t
		case t == n+1:
			arg, target = "zed", -1
		}
		if op == 0 {
			verifv.Assert(u.passwd(arg) == nil, "passwd failed")
		} else {
			salt := append([]byte(nil), u.salt...)
			verifv.Assert(u.rekey(arg) == nil, "rekey failed")
			verifv.Assert(target != me || string(salt) != string(u.salt), "rekeying leaves the key as it was")
		}
		switch {
		case target < 0 || (p == "" && !(op == 1 && target == me)):
			verifv.Assert(vSameLog(u.store.Log, before), "a refused change changed something")
			verifv.Reach("refused")
		case op == 1 && target == me:
			verifv.Reach("rekeyed")
		default:
			cs[target].pass = p
			verifv.Reach("changed")
		}
	}
	verifv.Assert(u.user == cs[me].user && u.pass == cs[me].pass, "the session does not remember its user's credentials")
	openableAfterSave("after the change", u, cs)
	verifv.NoPanic("a later change panicked", func() {
		typing("", "")
		verifv.Assert(u.rekey("") == nil, "rekey failed")
	})
	openableAfterSave("after a later change", u, cs)
}

// rekeyall gives every user the passphrase it shows.
func Harness_U01_rekeyall() {
	verifv.Bound("files of 1..2 users (thorough 3), every 2-byte passphrase of each, opened by any of them: rekeyall confirmed or declined; in single-user files it does nothing")
	known(false)
	u01Rekeyall()
}

// The same with ciphers and passphrases known.
func Harness_U01_rekeyall_known() {
	verifv.Bound("the same with one passphrase each, ciphers computed: exactly those credentials open the file, no former ones")
	known(true)
	u01Rekeyall()
}

func u01Rekeyall() {
	verifv.RandMode = 2
	n := verifv.Choose("users", verifv.Pick(3, 4))
	if n == 0 {
		pass := passText("pass")
		u := newFile(pass)
		script()
		verifv.Assert(u.rekeyAll() == nil, "rekeyall failed")
		verifv.Assert(len(u.store.Log) == 0, "rekeyall changed a single-user file")
		openableAfterSave("single-user file", u, []cred{{"", pass}})
		return
	}
	me := verifv.Choose("me", n)
	u, cs := team(n, me, false)
	before := cpTxs(u.store.Log)
	ok := verifv.Choose("sure", 2) == 1
	script([]string{"n", "y"}[verifv.IteI(ok, 1, 0)])
	verifv.ClearOutput()
	verifv.Assert(u.rekeyAll() == nil, "rekeyall failed")
	if !ok {
		verifv.Assert(vSameLog(u.store.Log, before), "a declined rekeyall changed something")
	} else {
		words := strings.Fields(verifv.Output())
		for i := range cs {
			shown := 0
			for k, w := range words {
				if w == cs[i].user+":" && k+1 < len(words) {
					cs[i].pass = words[k+1]
					shown++
				}
			}
			verifv.Assert(shown == 1, "the new passphrase of "+cs[i].user+" is not shown")
		}
		verifv.Assert(u.pass == cs[me].pass, "the session does not remember its user's new passphrase")
		verifv.Reach("rekeyed")
	}
	openableAfterSave("after rekeyall", u, cs)
	typing("", "")
	verifv.Assert(u.rekey("") == nil, "rekey failed")
	openableAfterSave("after a later rekey", u, cs)
}

// A passphrase that is not confirmed, an aborted prompt or a failing random
// source never changes what opens the file.
func Harness_U01_failed() {
	verifv.Bound("single-user file or two users: passwd, rekey, adduser or rekeyall whose prompt is interrupted, ended or answered differently the second time, or with the k-th read of randomness failing (any k): a failure is reported, or what is saved opens with the credentials the session stands for")
	known(false)
	verifv.RandMode = 2
	multi := verifv.Choose("multi", 2) == 1
	var u *uiContext
	var cs []cred
	if multi {
		u, cs = team(2, 0, false)
	} else {
		cs = []cred{{"", passText("pass")}}
		u = newFile(cs[0].pass)
		openableAfterSave("new file", u, cs)
	}
	file, _ := verifv.GetFile(testFile)
	p, p2 := passText("new"), passText("verify")
	op := verifv.Choose("op", 4)
	how := verifv.Choose("how", 3)
	switch how {
	case 0: // the two do not match, then the end of input
		verifv.Assume(p != p2)
		typing(p, p2)
		menu := verifv.LineHook
		seen := false
		verifv.LineHook = func(prompt string, hidden bool) (string, error) {
			if has(prompt, "u/l/n/b/e") {
				if seen {
					return "", ErrInterrupt
				}
				seen = true
			}
			return menu(prompt, hidden)
		}
	case 1:
		stop := verifv.Choose("stop", 3)
		err := []error{ErrInterrupt, ErrEnd}[verifv.Choose("end", 2)]
		typing(p, p)
		menu := verifv.LineHook
		n := 0
		verifv.LineHook = func(prompt string, hidden bool) (string, error) {
			n++
			if n > stop {
				return "", err
			}
			return menu(prompt, hidden)
		}
	default:
		typing(p, p, "y")
		verifv.RandFault = verifv.RandReads() + verifv.Choose("fault", verifv.Pick(45, 160))
	}
	var err error
	r := &repl{ctx: u}
	switch op {
	case 0:
		err = replCmds["passwd"].Run(r, "passwd", nil)
	case 1:
		err = replCmds["rekey"].Run(r, "rekey", []string{"bo"})
	case 2:
		err = replCmds["adduser"].Run(r, "adduser", []string{"dee"})
	default:
		err = replCmds["rekeyall"].Run(r, "rekeyall", nil)
	}
	verifv.RandFault = -1
	if err != nil {
		now, _ := verifv.GetFile(testFile)
		verifv.Assert(string(now) == string(file), "a failed change wrote the file")
		verifv.Reach("failed")
		return
	}
	verifv.Reach("done")
	if how == 2 {
		return // it went well before the fault: the other harnesses
	}
	switch {
	case op == 2 && !multi:
		cs[0].user = "dee"
	case op == 1 && !multi:
	default:
		verifv.Assert(op == 3, "an unconfirmed passphrase was accepted")
	}
	openableAfterSave("after a change that was not confirmed", u, cs)
}

// Many users.
func Harness_U01_many() {
	verifv.Bound("a file with 11 (thorough 30) users, ciphers computed, fixed passphrases: opened by the first, 10th or last one, who changes the own or another's passphrase, rekeys, rekeys all, or removes the 2nd or 10th; all that may can open it")
	verifv.RandMode = 2
	known(true)
	verifv.StepLimit(200000000)
	n := verifv.Pick(11, 30)
	u := newFile("p0")
	var cs []cred
	for i := 0; i < n; i++ {
		c := cred{"m" + strconv.Itoa(i), "p" + strconv.Itoa(i)}
		cs = append(cs, c)
		typing(c.pass, c.pass)
		verifv.Assert(u.adduser(c.user) == nil, "adduser failed")
	}
	openableAfterSave("users added", u, cs)
	me := []int{0, 9, n - 1}[verifv.Choose("me", 3)]
	u = reopen(cs[me])
	typing("nw", "nw")
	switch verifv.Choose("change", 5) {
	case 0:
		verifv.Assert(u.passwd("") == nil, "passwd failed")
		cs[me].pass = "nw"
	case 1:
		k := (me + 10) % n
		verifv.Assert(u.passwd(cs[k].user) == nil, "passwd failed")
		cs[k].pass = "nw"
	case 2:
		verifv.Assert(u.rekey("") == nil, "rekey failed")
	case 3:
		script("y")
		verifv.ClearOutput()
		verifv.Assert(u.rekeyAll() == nil, "rekeyall failed")
		for i := range cs {
			cs[i].pass = shownTo(cs[i].user)
		}
	default:
		k := 1
		if me == 0 {
			k = 9
		}
		script("user/" + cs[k].user)
		verifv.Assert(u.deleteEntry("user/"+cs[k].user) == nil, "rm failed")
		cs = append(cs[:k], cs[k+1:]...)
	}
	openableAfterSave("after the change", u, cs)
	verifv.Reach("changed")
}

// shownTo is the passphrase shown for that user.
func shownTo(user string) string {
	words := strings.Fields(verifv.Output())
	for k, w := range words {
		if w == user+":" && k+1 < len(words) {
			return words[k+1]
		}
	}
	verifv.Assert(false, "the new passphrase of "+user+" is not shown")
	return ""
}
