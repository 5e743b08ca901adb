// package-dir: .
package main

import (
	"io"

	"github.com/aarondl/bpass/scpsync"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
	"golang.org/x/crypto/ssh"
)

// calls records which places are read and written.
type calls struct{ got, put map[string]int }

func (c *calls) reset() { c.got, c.put = map[string]int{}, map[string]int{} }

// record makes every place be missing at first and to hold what was sent there
// later.
func record() *calls {
	c := &calls{}
	c.reset()
	held := map[string][]byte{}
	verifv.ScpRecv = func(hostport string, cfg *ssh.ClientConfig, path string) ([]byte, error) {
		at := cfg.User + "@" + hostport + "/" + path
		c.got[at]++
		if d, ok := held[at]; ok {
			return append([]byte(nil), d...), nil
		}
		return nil, scpsync.Err{Code: 1, Msg: "scp: x: No such file or directory"}
	}
	verifv.ScpSend = func(hostport string, cfg *ssh.ClientConfig, path string, mode int, data []byte) error {
		at := cfg.User + "@" + hostport + "/" + path
		c.put[at]++
		held[at] = append([]byte(nil), data...)
		return nil
	}
	verifv.PutDir("/r")
	verifv.FSOpenHook = func(path string, flag int) {
		if path == "/r/v" {
			c.got["file"]++
		}
	}
	return c
}

// target is an entry that may be a sync target.
type target struct {
	log       []txlogs.Tx
	name      string
	auto      bool   // synchronised without being named
	at        string // where it leads, "" when nowhere
	complaint bool   // something is wrong with it
}

// someTarget is one of many entries.
func someTarget(h *hist) (t target) {
	t = target{name: "sync/v", auto: true, at: "u@v:22/p"}
	flag, url := "true", "scp://u@v:22/p"
	switch verifv.Choose("kind", 4) {
	case 0: // the mark
		switch k := verifv.Choose("flag", 9); k {
		case 0, 1, 2, 3, 4, 5:
			flag = []string{"true", "TRUE", "True", "false", "", "-"}[k]
			t.auto = flag == "true"
		case 6:
			flag = verifv.String("flag", 4)
			for i := range []byte(flag) {
				verifv.Assume(verifv.And(flag[i] >= 'A', flag[i] <= 'z', flag[i] != '\\'))
			}
			t.auto = flag == "true"
		case 7:
			flag = "true" + verifv.String("flag", 1)
			verifv.Assume(verifv.And(flag[4] >= 'a', flag[4] <= 'z'))
			t.auto = false
		default:
			flag = verifv.String("flag", 3)
			for i := range []byte(flag) {
				verifv.Assume(verifv.And(flag[i] >= 'a', flag[i] <= 'z'))
			}
			t.auto = false
		}
	case 1: // where it leads
		k := verifv.Choose("url", 18)
		url = []string{"file:///r/v", "SCP://u@v:22/p", "scp://u@v/p", "scp://u:pw@v:222/d/p", "scp://u@[::1]:22/p",
			"http://u@v:22/p", "", "-", "scp://u@v:22", "scp://v:22/p", "scp://u@:22/p", "://", "scp://u@v:22/%zz", "scps://u@v:22/p",
			"scp://u@v:22//a/p", "scp://u@v:22/.//p/../q", "scp://u@v:22/P%20q", "scp://U@V:22/p/"}[k]
		t.at = []string{"file", "u@v:22/p", "u@v:22/p", "u@v:222/d/p", "u@[::1]:22/p", "", "", "", "", "", "", "", "", "", "u@v:22//a/p", "u@v:22/.//p/../q", "u@v:22/P q", "U@V:22/p/"}[k]
		t.complaint = t.at == ""
	case 2: // what it is called
		t.name = []string{"v", "user/v", "sync", "", "-"}[verifv.Choose("name", 5)]
		if t.name == "" || t.name == "-" {
			t.auto, t.complaint = false, true
		}
	default: // no longer there
		h.entry("v", t.name, "sync", flag, "url", url)
		h.put(txlogs.TxDelete, "v", "", "")
		t.auto, t.at, t.name = false, "", ""
		return t
	}
	h.put(txlogs.TxAdd, "v", "", "")
	for _, kv := range [][2]string{{"name", t.name}, {"sync", flag}, {"url", url}} {
		if kv[1] != "-" {
			h.put(txlogs.TxSetKey, "v", kv[0], kv[1])
		}
	}
	if t.name == "-" {
		t.name = ""
	}
	return t
}

// only asserts that exactly these places were contacted, once each.
func (c *calls) exactly(what string, want ...string) {
	n := 0
	for _, at := range want {
		if at == "" {
			continue
		}
		n++
		verifv.Assert(c.got[at] == 1, what+": a target is not read exactly once: "+at)
		if at == "file" {
			_, ok := verifv.GetFile("/r/v")
			verifv.Assert(ok, what+": a target that had nothing got nothing")
			continue
		}
		verifv.Assert(c.put[at] == 1, what+": a target is not written exactly once: "+at)
	}
	verifv.Assert(len(c.got) == n, what+": a place nobody asked for is read")
	for at := range c.put {
		verifv.Assert(c.got[at] == 1, what+": a place is written that was not read")
	}
	if _, ok := verifv.GetFile("/r/v"); ok {
		verifv.Assert(c.got["file"] > 0, what+": a file nobody asked for is written")
	}
}

// The sync command.
func Harness_Y05_command() {
	verifv.Bound("an entry whose mark is one of six, any 3 or 4 characters, or \"true\" and a letter; whose url is one of eighteen (file, scp with and without port, password and IPv6 address, relative, absolute and odd paths, other and missing schemes, missing parts, unreadable); whose name is one of five; or that was removed; a good target before or after it or none; sync without a name, with the entry's name, with a part or another spelling of it or with an unknown one")
	verifv.RandMode = 2
	u, h := someUI()
	c := record()
	other := verifv.Choose("other", 3)
	if other == 1 {
		h.entry("w", "sync/w", "sync", "true", "url", "scp://u@w:22/p")
	}
	t := someTarget(h)
	if other == 2 {
		h.entry("w", "sync/w", "sync", "true", "url", "scp://u@w:22/p")
	}
	u.store.Log = cpTxs(h.log)
	w := ""
	if other > 0 {
		w = "u@w:22/p"
	}
	at := t.at
	switch verifv.Choose("command", 4) {
	case 0:
		if !t.auto {
			at = ""
		}
		verifv.ClearOutput()
		verifv.Assert(session(u, "sync") == nil, "the session ended")
		c.exactly("sync", at, w)
		if t.complaint {
			who := t.name
			if who == "" {
				who = "v"
			}
			verifv.Assert(mentions(verifv.Output(), who), "a broken target is passed over silently")
		}
		verifv.Reach("all")
	case 1:
		verifv.Assume(t.name != "")
		verifv.Assert(session(u, "sync "+t.name) == nil, "the session ended")
		c.exactly("sync by name", at)
		verifv.Reach("named")
	case 2:
		part := []string{"s/v", "ync/v", "nc/", "Sync/v", "sync/v2", "y"}[verifv.Choose("part", 6)]
		verifv.Assume(t.name != part)
		verifv.Assert(session(u, "sync "+part) == nil, "the session ended")
		c.exactly("sync by a part of a name")
		verifv.Assert(mentions(verifv.Output(), part), "an unknown target is not reported")
		verifv.Reach("part")
	default:
		verifv.Assert(session(u, "sync nowhere") == nil, "the session ended")
		c.exactly("sync of an unknown name")
		verifv.Assert(mentions(verifv.Output(), "nowhere"), "an unknown target is not reported")
		verifv.Reach("unknown")
	}
	verifv.Assert(vSameLog(u.store.Log, h.log), "syncing changed the store")
}

// Opening and leaving the file.
func Harness_Y05_program() {
	verifv.Bound("the same entries beside a good target; the file opened, a value changed, an entry removed or nothing changed, and left normally or by an interrupt; with or without --no-sync and -t")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "v")
	h.entry("w", "sync/w", "sync", "true", "url", "scp://u@w:22/p")
	t := someTarget(h)
	at, w := t.at, "u@w:22/p"
	if !t.auto {
		at = ""
	}
	verifv.PutFile(testFile, sealed(h.log, newRing("pw")))
	c := record()
	flags := map[string]string{"no-color": "true"}
	how := verifv.Choose("how", 3)
	switch how {
	case 1:
		flags["no-sync"] = "true"
	case 2:
		flags["time"] = "2018-01-01 00:00:00"
	}
	change := how != 2 && verifv.Choose("change", 2) == 1
	abort := verifv.Choose("abort", 2) == 1
	k := 0
	removal := change && how == 0 && verifv.Choose("removal", 2) == 1
	ask(20, func(_ int, prompt, said string) (string, error) {
		if has(prompt, "passphrase: ") {
			return "pw", nil
		}
		k++
		switch {
		case k == 1:
			if how == 0 {
				c.exactly("opening", at, w)
			} else {
				c.exactly("opening without syncing")
			}
			c.reset()
			verifv.DropFile("/r/v")
			return "ls", nil
		case k == 2 && change:
			if removal {
				return "rm some/entry", nil
			}
			return "set some/entry k new", nil
		case k == 3 && removal && change:
			return "some/entry", nil
		case abort:
			return "", verifv.Readline_ErrInterrupt
		}
		return "", io.EOF
	})
	end := run(flags, "")
	verifv.Assert(failed(end) == abort, "the program ended with "+end)
	if how == 0 && change && !abort {
		c.exactly("leaving", at, w)
		verifv.Reach("leaving")
	} else {
		c.exactly("leaving without changes or normally")
	}
}
