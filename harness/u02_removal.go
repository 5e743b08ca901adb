// package-dir: .
package main

import (
	"io"

	"github.com/aarondl/bpass/verifv"
)

// Removing a user by deleting or renaming an entry.
func Harness_U02_remove() {
	verifv.Bound("files of 1..2 users (thorough 3) opened by any of them, with an ordinary entry and one that only is named like a user (as an existing one, but for a capital); any of these entries or an unknown one deleted (confirmed, misspelt, interrupted) or renamed (to a user's, an ordinary or a taken name); every 2-byte passphrase; then a passwd, rekey, adduser or another save")
	known(false)
	u02Remove()
}

// The same with ciphers and passphrases known.
func Harness_U02_known() {
	verifv.Bound("the same with one passphrase each, ciphers computed, deletions confirmed: exactly those credentials open the file, no former ones")
	known(true)
	u02Remove()
}

func u02Remove() {
	verifv.RandMode = 2
	n := 1 + verifv.Choose("users", verifv.Pick(2, 3))
	me := verifv.Choose("me", n)
	u, cs := team(n, me, false)
	_, err := u.store.New("plain")
	verifv.Assert(err == nil, "adding an entry failed")
	_, err = u.store.New("user/")
	verifv.Assert(err == nil, "adding an entry failed")
	if !knownPass && verifv.Choose("stray", 2) == 1 {
		_, err = u.store.New("user/Ann")
		verifv.Assert(err == nil, "adding an entry failed")
	}
	own := cs[me]
	r := &repl{ctx: u}
	before := cpTxs(u.store.Log)
	names := []string{"user/ann", "user/bo", "user/cy", "plain", "user/", "user/Ann", "nobody"}
	if knownPass {
		names = names[:4]
	}
	at := verifv.Choose("entry", len(names))
	name := names[at]
	uuid, _, _ := u.store.FindByName(name)
	removed := false // the entry is no user's any more
	if verifv.Choose("op", 2) == 0 {
		k := 0
		if !knownPass {
			k = verifv.Choose("answer", 6)
		}
		answer := []string{name, name + "x", "", "y", "", ""}[k]
		end := []error{nil, nil, nil, nil, ErrEnd, ErrInterrupt}[k]
		ask(3, func(n int, prompt, said string) (string, error) {
			if n > 0 {
				return "", io.EOF
			}
			if end != nil {
				return "", end
			}
			return answer, nil
		})
		err = replCmds["rm"].Run(r, "rm", []string{name})
		refused := at == me && n > 1
		if uuid != "" && !refused && end == nil && answer == name {
			verifv.Assert(err == nil, "deleting failed")
			gone, _ := u.store.Find(uuid)
			verifv.Assert(gone == nil && len(u.store.Log) == len(before)+1, "the entry was not deleted")
			removed = true
			verifv.Reach("deleted")
		} else {
			verifv.Assert(vSameLog(u.store.Log, before), "a refused deletion changed something")
			verifv.Reach("refused")
		}
		if err != nil {
			return // the session ends without saving
		}
	} else {
		dst := []string{"user/zoe", "other", "plain"}[verifv.Choose("dst", 3)]
		verifv.LineHook = func(string, bool) (string, error) { return "", io.EOF }
		verifv.Assert(replCmds["mv"].Run(r, "mv", []string{name, dst}) == nil, "renaming failed")
		if uuid == "" || dst == "plain" {
			verifv.Assert(vSameLog(u.store.Log, before), "a refused renaming changed something")
		} else if dst == "user/zoe" {
			if at < n {
				cs[at].user = "zoe"
				if at == me {
					own = cs[at]
				}
			}
			verifv.Reach("user renamed")
		} else {
			removed = true
			verifv.Reach("renamed away")
		}
	}
	if removed && at < n {
		cs = append(append([]cred(nil), cs[:at]...), cs[at+1:]...)
	}
	if len(cs) == 0 {
		cs = []cred{{"", own.pass}} // nobody left: the owner's passphrase
		verifv.Reach("nobody left")
	}
	in := false
	for _, c := range cs {
		in = in || c == own || c.user == ""
	}
	openableAfterSave("after the removal", u, cs)
	if !in {
		return
	}
	if cs[0].user == "" && len(cs) == 1 {
		own.user = ""
	}
	if verifv.Pick(1, 0) == 1 && len(u.store.Log) == len(before) {
		return
	}
	p := passText("later")
	typing(p, p)
	switch verifv.Choose("then", 3) {
	case 0:
		verifv.Assert(u.passwd("") == nil, "passwd failed")
		for i := range cs {
			if cs[i].user == own.user {
				cs[i].pass = p
			}
		}
	case 1:
		verifv.Assert(u.rekey("") == nil, "rekey failed")
	default:
		verifv.Assert(u.adduser("dee") == nil, "adduser failed")
		if cs[0].user == "" {
			cs[0].user = "dee"
		} else {
			cs = append(cs, cred{"dee", p})
		}
	}
	openableAfterSave("after a later change", u, cs)
}

// Users removed by what a sync brought in.
func Harness_U02_merged() {
	verifv.Bound("files of 1..2 users (thorough 3) opened by any of them; the records of a merge delete any of the users, or rename them to an ordinary name; one passphrase each, ciphers computed; then a passwd or rekey when the session's own user is still there")
	known(true)
	verifv.RandMode = 2
	n := 1 + verifv.Choose("users", verifv.Pick(2, 3))
	me := verifv.Choose("me", n)
	u, cs := team(n, me, false)
	own := cs[me]
	var left []cred
	in := false
	for i, c := range cs {
		uuid, _, err := u.store.FindUser(c.user)
		verifv.Assert(err == nil && uuid != "", "a user is missing")
		switch verifv.Choose("what", 3) {
		case 0:
			left = append(left, c)
			in = in || i == me
		case 1:
			u.store.DB.Delete(uuid)
		case 2:
			u.store.DB.Set(uuid, "name", "plain"+c.user)
		}
	}
	if len(left) == 0 {
		left = []cred{{"", own.pass}}
		verifv.Reach("nobody left")
	}
	openableAfterSave("after the merge", u, left)
	if !in {
		verifv.Reach("only others left")
		return
	}
	p := passText("later")
	typing(p, p)
	switch verifv.Choose("then", 2) {
	case 0:
		verifv.Assert(u.passwd("") == nil, "passwd failed")
		for i := range left {
			if left[i].user == own.user {
				left[i].pass = p
			}
		}
	case 1:
		verifv.Assert(u.rekey("") == nil, "rekey failed")
	}
	openableAfterSave("after a later change", u, left)
}
