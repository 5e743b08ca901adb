// package-dir: .
package main

import (
	"encoding/json"
	"io"
	"net/url"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
	"github.com/pquerna/otp/totp"
)

// h01At is how the entry is named at the prompt.
func h01At(cmd string) []string {
	switch verifv.Choose("named", 3) {
	case 0:
		return []string{cmd + " some/entry"}
	case 1:
		return []string{cmd + " s/e"}
	}
	return []string{"cd some/entry", cmd}
}

// Opening an entry's address.
func Harness_H01_open() {
	verifv.Bound("an address of 0..2 (thorough 0..3) any bytes but '%', or one of eight longer ones, or none; the launcher there or not, starting or failing; the entry named fully, shortened or chosen with cd; another entry with an address")
	u, h := someUI()
	link, set := "", true
	switch verifv.Choose("kind", 3) {
	case 0:
		link = verifv.String("url", verifv.Choose("length", verifv.Pick(3, 4)))
		for i := range link {
			verifv.Assume(link[i] != '%')
		}
	case 1:
		link = []string{"https://a.example/p?q=1&r=%20#f", "http://u:p@h:80/", "ssh://h", "mailto:a@b", "HTTP://X/ y", "http://[::1", "a b c", "%zz"}[verifv.Choose("which", 8)]
	case 2:
		set = false
	}
	if set {
		h.put(txlogs.TxSetKey, "e", "url", link)
	}
	h.entry("o", "other", "url", "http://other/")
	u.store.Log = h.log
	verifv.Programs = map[string]bool{}
	there := verifv.Choose("there", 2) == 0
	if there {
		verifv.Programs["xdg-open"] = true
	}
	verifv.StartFault = verifv.Choose("fails", 2) == 1
	out := len(verifv.Output())
	verifv.Assert(session(u, h01At("open")...) == nil, "the session ended")
	said := verifv.Output()[out:]
	verifv.Assert(vSameLog(u.store.Log, h.log), "opening an address changed the store")
	verifv.Assert(len(verifv.Clip) == 0 && len(verifv.Wrote) == 0, "an address is handed elsewhere too")
	if link == "" {
		verifv.Assert(len(verifv.Started) == 0 && has(said, "not set"), "an entry without an address is opened or not told so")
		verifv.Reach("none")
		return
	}
	if _, err := url.Parse(link); err != nil {
		verifv.Assert(len(verifv.Started) == 0 && has(said, "not a valid url"), "a useless address is opened or not told so")
		verifv.Reach("useless")
		return
	}
	if !there || verifv.StartFault {
		verifv.Assert(len(verifv.Started) == 0 && has(said, "failed to open"), "a failing launcher is not reported")
		verifv.Reach("failed")
		return
	}
	verifv.Assert(len(verifv.Started) == 1 && len(verifv.Started[0]) == 2, "not exactly one program is started on one address")
	verifv.Assert(has(verifv.Started[0][0], "xdg-open") && verifv.EqS(verifv.Started[0][1], link), "another address is opened than the stored one")
	verifv.Assert(!has(said, "failed"), "a failure is reported that was none")
	verifv.Reach("opened")
}

// Copying everything for a login.
func Harness_H01_login() {
	verifv.Bound("any of user, email and password set to 0..1 any bytes or not, a two-factor secret or none; the clipboard working or not; going on, interrupted or ended after any of the values; the entry named fully, shortened or chosen with cd")
	u, h := someUI()
	verifv.RandMode = 2
	var want []string
	var kinds []string
	for _, k := range []string{"pass", "email", "user", "notes", "url"} {
		if verifv.Choose("has "+k, 2) == 0 {
			continue
		}
		v := "n"
		if k == "user" || k == "email" || k == "pass" {
			v = verifv.String(k, verifv.Choose("length", 2))
		}
		h.put(txlogs.TxSetKey, "e", k, v)
	}
	secret := verifv.Choose("totp", 2) == 1
	if secret {
		h.put(txlogs.TxSetKey, "e", "totp", "otpauth://totp/x?secret=GEZDGNBV")
	}
	h.entry("o", "other", "pass", "q", "user", "r")
	u.store.Log = h.log
	st, _ := refState(h.log)
	for _, k := range []string{"user", "email", "pass"} {
		if v, ok := st["e"][k]; ok {
			want, kinds = append(want, v), append(kinds, k)
		}
	}
	verifv.SetClock(1500000000 * 1000000000)
	if secret {
		code, err := totp.GenerateCode("GEZDGNBV", time.Unix(1500000000, 0))
		verifv.Assert(err == nil, "no code")
		want, kinds = append(want, code), append(kinds, "totp")
	}
	stop := verifv.Choose("stops after", len(want)+1)
	how := []error{io.EOF, verifv.Readline_ErrInterrupt}[verifv.Choose("how", 2)]
	verifv.ClipFault = verifv.Choose("clip", 2) == 1
	lines := h01At("login")
	n, enters := 0, 0
	out := 0
	verifv.LineHook = func(p string, hidden bool) (string, error) {
		n++
		if n <= len(lines) {
			out = len(verifv.Output())
			return lines[n-1], nil
		}
		if has(p, "enter") {
			enters++
			if !verifv.ClipFault {
				verifv.Assert(len(verifv.Clip) == enters, "the next value is copied before enter is pressed, or none is")
			}
			if enters == stop {
				return "", how
			}
			return "", nil
		}
		return "", io.EOF
	}
	r := &repl{ctx: u}
	err := r.run()
	said := verifv.Output()[out:]
	given := len(want)
	if stop > 0 && stop < len(want) {
		given = stop
		verifv.Assert(err != nil, "stopping is not reported")
		verifv.Reach("stopped")
	} else {
		verifv.Assert(err == nil, "the session ended with an error")
		verifv.Assert(enters == len(want)-1 || len(want) == 0 && enters == 0, "asked for enter too often or not often enough")
		verifv.Reach("all")
	}
	if verifv.ClipFault {
		verifv.Assert(len(verifv.Clip) == 0 && strings.Count(said, "Failed to copy") == given, "a failing clipboard is not reported")
	} else {
		verifv.Assert(len(verifv.Clip) == given, "not exactly the values there are were copied")
		for i, c := range verifv.Clip {
			verifv.Assert(verifv.EqS(c, want[i]), "another value is copied, or in another order")
			verifv.Assert(has(said, "Copied "), "copying is not told")
		}
	}
	for i, k := range kinds[:given] {
		at := strings.Index(said, k)
		verifv.Assert(at >= 0 && (i == 0 || at >= strings.Index(said, kinds[i-1])), "it is not told what is copied")
	}
	verifv.Assert(vSameLog(u.store.Log, h.log), "logging in changed the store")
}

// Dumps.
func Harness_H01_dump() {
	verifv.Bound("entries with 0..3 fields of 0..2 letters or digits, one changed, removed or the entry deleted and made again afterwards; dump of either entry and dumpall")
	u, h := someUI()
	text := func(l string) string {
		s := verifv.String(l, verifv.Choose("length", 3))
		for i := range s {
			verifv.Assume(verifv.InSet(s[i], "abZ9"))
		}
		return s
	}
	for i := verifv.Choose("fields", 4); i > 0; i-- {
		h.put(txlogs.TxSetKey, "e", []string{"pass", "k", "notes"}[i-1], text("value"))
	}
	switch verifv.Choose("later", 3) {
	case 1:
		h.put(txlogs.TxSetKey, "e", "pass", text("later"))
	case 2:
		h.put(txlogs.TxDeleteKey, "e", "k", "")
	}
	h.entry("o", "other", "pass", "q")
	u.store.Log = h.log
	all := verifv.Choose("all", 2) == 1
	line := []string{"dumpall"}
	if !all {
		line = h01At("dump")
	}
	out := 0
	verifv.Assert(session(u, line...) == nil, "the session ended")
	said := verifv.Output()[out:]
	verifv.Assert(vSameLog(u.store.Log, h.log), "dumping changed the store")
	st, _ := refState(h.log)
	if !all {
		want := 0
		for k, v := range st["e"] {
			verifv.Assert(strings.Count(said, k+": \"") == 1, "a field is not dumped exactly once")
			verifv.Assert(has(said, k+": \""+v+"\"\n"), "a field is not dumped with its value")
			want++
		}
		verifv.Assert(strings.Count(said, ": \"") == want, "something else is dumped")
		verifv.Reach("dumped")
		return
	}
	got := new(txlogs.DB)
	verifv.Assert(json.Unmarshal([]byte(said), got) == nil, "the dump cannot be read")
	verifv.Assert(vSameLog(got.Log, h.log), "the dump is not the whole history")
	verifv.Reach("dumped all")
}
