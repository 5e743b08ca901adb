// package-dir: .
package main

import (
	"io"
	"strconv"
	"strings"

	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// cred is what a user types to open the file.
type cred struct{ user, pass string }

// passText is any two-byte passphrase, or a fixed one when knownPass is set.
func passText(label string) string {
	if knownPass {
		return "p" + label
	}
	return verifv.String(label, 2)
}

// knownPass makes the ciphers and passphrases concrete, so that a wrong
// outcome is computed and not only searched for.
var knownPass bool

func known(on bool) {
	knownPass = on
	if on {
		verifv.ConcreteCrypto()
	}
}

// newText is what passText is, or empty.
func newText(label string) string {
	if verifv.Choose("newlen", 2) == 0 {
		return ""
	}
	return passText(label)
}

// typing answers the password menu with "enter by hand" and pass, typed the
// second time as verify, and every other prompt with the lines given.
func typing(pass, verify string, lines ...string) {
	k := 0
	ask(40, func(n int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "u/l/n/b/e"):
			return "m", nil
		case has(prompt, "verify"):
			return verify, nil
		case has(prompt, "enter new password") || has(prompt, "passphrase: "):
			return pass, nil
		}
		if k < len(lines) {
			k++
			return lines[k-1], nil
		}
		return "", io.EOF
	})
}

// newFile is a session on a file just created with that passphrase.
func newFile(pass string) *uiContext {
	resetMain()
	u := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b"}
	verifv.Assert(setupLineEditor(u) == nil, "the terminal could not be set up")
	typing(pass, pass)
	verifv.Assert(u.loadBlob() == nil, "a new file could not be started")
	return u
}

// reopen opens the saved file in a new session.
func reopen(c cred) *uiContext {
	resetMain()
	u := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b"}
	verifv.Assert(setupLineEditor(u) == nil, "the terminal could not be set up")
	typing(c.pass, c.pass, c.user)
	verifv.Assert(u.loadBlob() == nil, "the file cannot be opened with the right passphrase")
	return u
}

// openable asserts that the saved file opens with exactly those credentials:
// each of them gives the session's history, and the user table names exactly
// those users, once each (so with ideal ciphers nothing else opens it).
func openable(what string, u *uiContext, creds ...cred) {
	want := u.store.Log
	data, ok := verifv.GetFile(testFile)
	verifv.Assert(ok, what+": there is no file")
	multi, err := crypt.IsMultiUser(append([]byte(nil), data...))
	verifv.Assert(err == nil, what+": the file is not one of this program")
	single := len(creds) == 1 && creds[0].user == ""
	verifv.Assert(multi == !single, what+": single- and multi-user file are mixed up")
	n := 0
	if !single {
		n = len(creds)
	}
	digits := strconv.Itoa(n)
	verifv.Assert(string(data[12:16]) == "0000"[len(digits):]+digits, what+": the file has another number of users")
	if knownPass {
		for _, name := range []string{"", "ann", "bo", "cy"} {
			old := []string{"ppass" + name}
			if name == "" {
				old = []string{"pold", "ppassann"}
			}
			for _, p := range old {
				may := false
				for _, c := range creds {
					may = may || c.pass == p && (single || c.user == name)
				}
				_, _, _, err := crypt.Decrypt([]byte(name), []byte(p), nil, nil, append([]byte(nil), data...))
				verifv.Assert((err == nil) == may, what+": not exactly those who may can open the file: "+name+" "+p)
			}
		}
	}
	for _, c := range creds {
		if !single {
			hash := verifv.Sha256_Sum256([]byte(c.user))
			found, rec := 0, []byte(nil)
			for i := 0; i < n; i++ {
				at := 16 + i*refUser
				if string(data[at:at+32]) == string(hash[:]) {
					found++
					rec = data[at+32:]
				}
			}
			verifv.Assert(found == 1, what+": user "+c.user+" is not exactly once in the file")
			key := refDerive([]byte(c.pass), rec[:refSalt])
			master := refUnwrap(key, rec[refSalt:refSalt+refIV], rec[refSalt+refIV:refSalt+refIV+refKey])
			verifv.Assert(verifv.EqB(master, u.master), what+": the passphrase of "+who(c)+" does not give the master key")
		} else {
			verifv.Assert(verifv.EqB(refDerive([]byte(c.pass), data[16:16+refSalt]), u.key), what+": the passphrase does not give the file's key")
		}
		_, _, pt, err := crypt.Decrypt([]byte(c.user), []byte(c.pass), nil, nil, append([]byte(nil), data...))
		verifv.Assert(err == nil, what+": "+who(c)+" cannot open the file")
		db, err := txlogs.New(pt)
		verifv.Assert(err == nil, what+": the file's content cannot be read")
		verifv.Assert(vSameLog(db.Log, want), what+": the file does not hold the session's history")
	}
}

func who(c cred) string {
	if c.user == "" {
		return "the passphrase"
	}
	return "user " + c.user
}

func field(e map[string]string, k string) string { return strings.TrimSpace(e[k]) }

// team is a file with the given users opened by the me-th of them; pass gives
// each one's passphrase; check that they can open it.
func team(n, me int, check bool) (u *uiContext, cs []cred) {
	names := []string{"ann", "bo", "cy"}[:n]
	for i, name := range names {
		cs = append(cs, cred{name, passText("pass" + name)})
		if i == 0 {
			u = newFile(cs[0].pass)
		}
		typing(cs[i].pass, cs[i].pass)
		verifv.Assert(u.adduser(name) == nil, "adduser failed")
		if i == 0 && check {
			openableAfterSave("first user added", u, cs)
		}
	}
	if check {
		openableAfterSave("users added", u, cs)
	} else {
		verifv.Assert(u.saveBlob() == nil, "the file could not be saved")
	}
	if me > 0 || verifv.Choose("reopened", 2) == 1 {
		u = reopen(cs[me])
	}
	return u, cs
}

func openableAfterSave(what string, u *uiContext, cs []cred) {
	verifv.Assert(u.saveBlob() == nil, what+": the session cannot save")
	openable(what, u, cs...)
}
