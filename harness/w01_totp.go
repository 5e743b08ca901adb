// package-dir: .
package main

import (
	"net/url"
	"strings"
	"time"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
	"github.com/pquerna/otp/totp"
)

// codeFor is the code everybody else shows for the secret at that second.
func codeFor(secret string, sec int64) string {
	code, err := totp.GenerateCode(secret, time.Unix(sec, 0))
	verifv.Assert(err == nil, "no code for a good secret")
	return code
}

// shows checks every way to get at the code.
func shows(u *uiContext, secret string, sec int64) {
	verifv.SetClock(sec * 1000000000)
	want := codeFor(secret, sec)
	verifv.ClearOutput()
	verifv.Clip = nil
	way := verifv.Choose("way", 5)
	lines := [][]string{{"get some/entry totp"}, {"cp some/entry totp"}, {"totp some/entry"}, {"show some/entry"}, {"login some/entry", ""}}[way]
	verifv.Assert(session(u, lines...) == nil, "the session ended")
	said := verifv.Output()
	switch way {
	case 0:
		verifv.Assert(len(verifv.Clip) == 0 && verifv.EqS(firstLine(said), want), "another code is shown")
	case 1, 2:
		verifv.Assert(len(verifv.Clip) == 1 && verifv.EqS(verifv.Clip[0], want), "another code is copied")
	case 3:
		found := false
		for _, l := range strings.Split(said, "\n") {
			if has(l, "totp:") {
				found = true
				verifv.Assert(len(l) >= 6 && verifv.EqS(strings.TrimSpace(l[strings.Index(l, "totp:")+5:]), want), "another code is shown")
			}
		}
		verifv.Assert(found, "the code is not shown")
	case 4:
		verifv.Assert(len(verifv.Clip) == 2 && verifv.Clip[0] == "p" && verifv.EqS(verifv.Clip[1], want), "another code is copied on login")
	}
	verifv.Reach("code")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func totpUI() (*uiContext, *hist) {
	verifv.RandMode = 2
	u, h := someUI()
	h.put(txlogs.TxSetKey, "e", "pass", "p")
	h.entry("o", "other", "pass", "q", "totp", "otpauth://totp/x?secret=GEZDGNBV")
	u.store.Log = h.log
	return u, h
}

// Setting a secret.
func Harness_W01_set() {
	verifv.Bound("a bare key of two printable characters or four letters and digits (any, valid or not), or an otpauth address of thirteen shapes with a secret of two letters or digits in it; an entry with or without a secret before; the code shown by get, cp, totp, show and login at six moments around changes of the code")
	u, h := totpUI()
	old := verifv.Choose("old", 2) == 1
	if old {
		h.put(txlogs.TxSetKey, "e", "totp", "otpauth://totp/x?secret=GEZDGNBV")
		u.store.Log = h.log
	}
	n := len(h.log)
	secret, arg, good := "", "", true
	switch verifv.Choose("form", 3) {
	case 0:
		secret = verifv.String("key", 2)
		for i := range []byte(secret) {
			verifv.Assume(verifv.And(secret[i] > ' ', secret[i] < 127, secret[i] != '='))
		}
		arg = secret
	case 1:
		secret = verifv.String("key", 4)
		for i := range []byte(secret) {
			c := secret[i]
			verifv.Assume(verifv.Or(verifv.And(c >= 'a', c <= 'z'), verifv.And(c >= 'A', c <= 'Z'), verifv.And(c >= '0', c <= '9')))
		}
		arg = secret
	case 2:
		secret = verifv.String("secret", 2)
		for i := range []byte(secret) {
			c := secret[i]
			verifv.Assume(verifv.Or(verifv.And(c >= 'a', c <= 'z'), verifv.And(c >= 'A', c <= 'Z'), verifv.And(c >= '0', c <= '9')))
		}
		k := verifv.Choose("shape", 13)
		good = k < 5
		arg = []string{
			"otpauth://totp/Ex:alice@x.com?secret=" + secret + "&issuer=Ex",
			"otpauth://totp/x?issuer=Ex&secret=" + secret,
			"otpauth://totp/?algorithm=SHA1&digits=6&period=30&secret=" + secret,
			"otpauth://totp/a%20b%3Ac?secret=" + secret + "#x",
			"otpauth://totp?secret=" + secret,
			"otpauth://hotp/x?counter=1&secret=" + secret,
			"otpauth://totp/%zz?secret=" + secret,
			"otpauth://totp/x?Secret=" + secret,
			"otpauth://totp/x?secret=&x=" + secret,
			"https://totp/x?secret=" + secret,
			"otpauth:totp?secret=" + secret,
			"otpauth://totp/x?secret=%20%20&x=" + secret,
			"otpauth://steam/x?secret=" + secret,
		}[k]
	}
	for i := range []byte(secret) {
		c := secret[i]
		if !(verifv.Or(verifv.And(c >= 'a', c <= 'z'), verifv.And(c >= 'A', c <= 'Z'), verifv.And(c >= '2', c <= '7'))) {
			good = false
			break
		}
	}
	if verifv.Choose("context", 2) == 1 {
		verifv.Assert(session(u, "cd some/entry", "set totp "+arg) == nil, "the session ended")
	} else {
		verifv.Assert(session(u, "set some/entry totp "+arg) == nil, "the session ended")
	}
	if !good {
		verifv.Assert(vSameLog(u.store.Log, h.log), "a useless secret was stored")
		verifv.Assert(has(verifv.Output(), "could not set two factor key"), "a useless secret is not reported")
		verifv.Reach("refused")
		if !old {
			return
		}
		secret = "GEZDGNBV"
	} else {
		verifv.Assert(len(u.store.Log) > n, "a good secret was not stored")
		for _, tx := range u.store.Log[n:] {
			verifv.Assert(tx.UUID == "e", "another entry was changed")
		}
		verifv.Reach("set")
	}
	shows(u, secret, []int64{1500000000, 1500000029, 1500000030, 4102444800, 59, 89}[verifv.Choose("moment", 6)])
}

// Useless secrets that are not just any characters.
func Harness_W01_useless() {
	verifv.Bound("six useless keys: none, blanks, padding only, one and three characters, blanks inside")
	u, h := totpUI()
	key := []string{"", "  ", "==", "A", "ABC", "JBSW Y3DP!"}[verifv.Choose("key", 6)]
	verifv.Assert(session(u, "set some/entry totp "+key) == nil, "the session ended")
	verifv.Assert(vSameLog(u.store.Log, h.log), "a useless secret was stored")
	verifv.Reach("refused")
}

// Getting rid of a secret, and entries without one.
func Harness_W01_none() {
	verifv.Bound("an entry without a secret, or with one removed, asked in each of five ways; another entry with one")
	u, h := totpUI()
	if verifv.Choose("removed", 2) == 1 {
		h.put(txlogs.TxSetKey, "e", "totp", "otpauth://totp/x?secret=GEZDGNBV")
		u.store.Log = h.log
		verifv.Assert(session(u, "rmk some/entry totp") == nil, "the session ended")
		verifv.Assert(len(u.store.Log) > len(h.log), "the secret was not removed")
		for _, tx := range u.store.Log[len(h.log):] {
			verifv.Assert(tx.UUID == "e" && !has(tx.Value, "GEZ"), "more than the secret was changed")
		}
	}
	way := verifv.Choose("way", 5)
	verifv.ClearOutput()
	lines := [][]string{{"get some/entry totp"}, {"cp some/entry totp"}, {"totp some/entry"}, {"show some/entry"}, {"login some/entry"}}[way]
	verifv.Assert(session(u, lines...) == nil, "the session ended")
	said := verifv.Output()
	if way < 3 {
		verifv.Assert(has(said, "not set") && len(verifv.Clip) == 0, "a code is shown although there is none")
	}
	verifv.Assert(!has(said, codeFor("GEZDGNBV", verifv.Clock()/1000000000)), "another entry's code is shown")
	if way == 4 {
		verifv.Assert(len(verifv.Clip) == 1 && verifv.Clip[0] == "p", "more than the password is copied on login")
	}
	verifv.Reach("none")
}

// Secrets written by other tools or other copies.
func Harness_W01_stored() {
	verifv.Bound("six stored values: a good one in a form this program does not write, a counter based one, no secret, a secret that is no base32, no address, an empty value; asked in each of five ways")
	u, h := totpUI()
	k := verifv.Choose("value", 6)
	h.put(txlogs.TxSetKey, "e", blobformat.KeyTwoFactor, []string{
		"otpauth://totp/I:a?issuer=I&secret=" + url.QueryEscape("jbswy3dp"),
		"otpauth://hotp/x?counter=1&secret=GEZDGNBV", "otpauth://totp/x", "otpauth://totp/x?secret=018", "%zz", "",
	}[k])
	u.store.Log = h.log
	if k == 0 {
		shows(u, "jbswy3dp", 1500000010)
		return
	}
	way := verifv.Choose("way", 4)
	lines := [][]string{{"get some/entry totp"}, {"cp some/entry totp"}, {"totp some/entry"}, {"show some/entry"}}[way]
	verifv.Assert(session(u, lines...) == nil, "the session ended")
	if k != 2 {
		verifv.Assert(len(verifv.Clip) == 0, "a code was made up")
	}
	verifv.Assert(vSameLog(u.store.Log, h.log), "asking changed the entry")
	verifv.Reach("bad")

}
