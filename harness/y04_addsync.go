// package-dir: .
package main

import (
	"encoding/hex"
	"encoding/pem"
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/verifv"
	"golang.org/x/crypto/ssh"
)

// contact is where a connection went, and how.
type contact struct {
	hostport, path string
	config         *ssh.ClientConfig
}

// contacts syncs with one target and returns the connections made.
func contacts(u *uiContext, name string) (out []contact) {
	verifv.SSHPasswords, verifv.SSHKeys = nil, nil
	verifv.ScpRecv = func(hostport string, c *ssh.ClientConfig, path string) ([]byte, error) {
		out = append(out, contact{hostport, path, c})
		return nil, errors.New("down")
	}
	verifv.ScpSend = func(hostport string, c *ssh.ClientConfig, path string, mode int, data []byte) error {
		verifv.Assert(false, "a target that could not be read is written")
		return nil
	}
	verifv.Assert(u.sync(name, false, true) == nil, "syncing failed")
	return out
}

// anyBytes is a text of these many characters without line ends.
func anyText(label string, n int) string {
	s := verifv.String(label, n)
	for i := range []byte(s) {
		verifv.Assume(verifv.And(s[i] != '\n', s[i] != '\r'))
	}
	return s
}

// newTarget is the entry that was added.
func newTarget(u *uiContext, before int) (id string, e map[string]string) {
	for _, tx := range u.store.Log[before:] {
		verifv.Assert(id == "" || tx.UUID == id, "more than one entry was touched")
		id = tx.UUID
	}
	verifv.Assert(id != "", "nothing was added")
	st, ok := refState(u.store.Log)
	verifv.Assert(ok && st[id] != nil, "the history does not apply")
	names := 0
	for _, o := range st {
		if o["name"] == st[id]["name"] {
			names++
		}
	}
	verifv.Assert(names == 1, "the target's name is not unique")
	verifv.Assert(st[id][blobformat.KeySync] == "true", "the target is not synchronised automatically")
	return id, st[id]
}

// A target reached over scp.
func Harness_Y04_scp() {
	verifv.Bound("user, path (relative; a leading slash is dropped) and password any 1..2 characters, one of them at a time, or fixed ones with URL syntax in them; a host name, address or IPv6 address; a port any one or two (thorough three) characters, or one of eight; with the fixed ones: key kinds ed25519, RSA and password, with any step of making the key failing; none, one or two targets there")
	verifv.RandMode = 2
	u, h := someUI()
	there := 1
	part := verifv.Choose("part", 5)
	if part == 3 {
		there = verifv.Choose("there", 3)
	}
	for i := there; i > 0; i-- {
		h.entry("s"+strconv.Itoa(i), "sync/scp"+strings.Repeat("1", i-1), "sync", "true", "url", "scp://o@o:22/o"+strconv.Itoa(i))
	}
	u.store.Log = h.log
	n := len(h.log)
	user, host, path, pass, port, typed := "me", "h.example", "dir/file", "pw", "22", ""
	switch part {
	case 0:
		user = anyText("user", 1+verifv.Choose("length", 2))
	case 1:
		path = anyText("path", 1+verifv.Choose("length", 2))
		verifv.Assume(path[0] != '/')
	case 2:
		pass = anyText("pass", 1+verifv.Choose("length", 2))
	case 3:
		host = []string{"10.0.0.1", "::1", "fe80::1", "h-1"}[verifv.Choose("host", 4)]
		user, path, pass = []string{"a b", "a@b:c", "a%41/?#"}[verifv.Choose("odd", 3)], "a b/%41?x#y:z@w", "p@ss:/?#%41 +&="
	default:
		port = ""
		if k := verifv.Choose("port", 10); k < 8 {
			typed = []string{"1", "65535", "65536", "0", "-1", "022", "", "99999999999999999999"}[k]
		} else {
			typed = verifv.String("port", k-7)
			for i := range []byte(typed) {
				verifv.Assume(verifv.And(typed[i] >= ' ', typed[i] < 127))
			}
		}
		// a port is a number up to 65535; anything else is asked again
		v, good := 0, len(typed) > 0 && len(typed) < 9
		for i := range []byte(typed) {
			if typed[i] < '0' || typed[i] > '9' {
				good = false
				break
			}
			v = v*10 + int(typed[i]-'0')
		}
		switch {
		case typed == "":
			port = "22"
		case good && v > 0 && v <= 65535:
			port = strconv.Itoa(v)
		case len(typed) > 1 && typed[0] == '+': // may be taken as a number
			return
		}
	}
	kind := []int{0, 0, 2, 0, 2}[part]
	verifv.KeyFault = -1
	if part == 0 || part == 3 {
		kind = verifv.Choose("kind", 3)
	}
	if kind < 2 && part == 3 {
		verifv.KeyFault = verifv.Choose("fault", 4) - 1
	}
	again := false
	ask(30, func(_ int, prompt, said string) (string, error) {
		switch {
		case has(prompt, ")> "):
			if len(u.store.Log) == n && !again {
				again = true
				return "addsync scp", nil
			}
			return "", io.EOF
		case has(prompt, "user: "):
			return user, nil
		case has(prompt, "host: "):
			return host, nil
		case has(prompt, "port (22): "):
			if port == "" && again && typed != "2222" {
				t := typed
				typed = "2222"
				return t, nil
			}
			if port == "" {
				port = "2222"
			}
			return typed, nil
		case has(prompt, "path: "):
			return path, nil
		case has(prompt, "> ") && has(said, "Key type"):
			return strconv.Itoa(kind + 1), nil
		case has(prompt, "password: "):
			return pass, nil
		case has(prompt, "enter/?> "):
			return "m", nil
		}
		verifv.Assert(false, "an unknown question: "+prompt)
		return "", io.EOF
	})
	r := &repl{ctx: u}
	verifv.Assert(r.run() == nil, "the session ended")
	if verifv.KeyFault >= 0 {
		verifv.Assert(vSameLog(u.store.Log, h.log), "a target without a key was added")
		verifv.Assert(has(verifv.Output(), "failed to"), "a failure is not reported")
		verifv.Reach("no key")
		return
	}
	id, e := newTarget(u, n)
	cs := contacts(u, e["name"])
	verifv.Assert(len(cs) == 1, "the new target cannot be contacted")
	c := cs[0]
	want := host + ":" + port
	if strings.Contains(host, ":") {
		want = "[" + host + "]:" + port
	}
	verifv.Assert(verifv.EqS(c.hostport, want), "another host or port is contacted than was entered")
	verifv.Assert(verifv.EqS(c.path, path), "another path is used than was entered")
	verifv.Assert(verifv.EqS(c.config.User, user), "another user is used than was entered")
	verifv.Assert(c.config.HostKeyCallback != nil, "host keys are not checked")
	verifv.Assert(len(c.config.Auth) == 1, "not exactly one way to log in is used")
	if kind == 2 {
		verifv.Assert(len(verifv.SSHKeys) == 0 && len(verifv.SSHPasswords) == 1 && verifv.EqS(verifv.SSHPasswords[0], pass), "another password is used than was entered")
		verifv.Reach("password")
		return
	}
	verifv.Assert(len(verifv.SSHPasswords) == 0 && len(verifv.SSHKeys) == 1 && string(verifv.SSHKeys[0]) == e[blobformat.KeyPriv], "another key is used than the stored one")
	block, _ := pem.Decode([]byte(e[blobformat.KeyPriv] + "\n"))
	verifv.Assert(block != nil && block.Type == "PRIVATE KEY", "the private key cannot be read")
	pub := hex.EncodeToString(verifv.FlipSeed(block.Bytes))
	name := []string{"ssh-ed25519", "ssh-rsa"}[kind]
	verifv.Assert(e[blobformat.KeyPub] == name+" "+pub+" @bpass", "the public key is not the private one's")
	verifv.Assert(has(verifv.Output(), e[blobformat.KeyPub]), "the public key is not shown")
	verifv.Assert(kind == 0 || verifv.RSABits >= 4096, "the key is too short")
	verifv.Reach("key")
	_ = id
}

// A target that is a file.
func Harness_Y04_file() {
	verifv.Bound("a path of any 1..3 characters (relative to the working directory or not) or one with URL syntax in it")
	verifv.RandMode = 2
	u, h := someUI()
	u.store.Log = h.log
	n := len(h.log)
	path := "/r/a b%41?x#y:z"
	if verifv.Choose("text", 2) == 1 {
		path = anyText("path", 1+verifv.Choose("length", verifv.Pick(2, 3)))
	}
	if verifv.Choose("below", 2) == 1 {
		path = "/r/" + path
	}
	k := 0
	ask(20, func(_ int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "path: "):
			return path, nil
		case has(prompt, ")> "):
			if k++; k == 1 {
				return "addsync file", nil
			}
		}
		return "", io.EOF
	})
	r := &repl{ctx: u}
	verifv.Assert(r.run() == nil, "the session ended")
	_, e := newTarget(u, n)
	abs, _ := verifv.Filepath_Abs(path)
	at := len(verifv.FSLog)
	verifv.Assert(u.sync(e["name"], false, false) == nil, "syncing failed")
	got := ""
	for _, op := range verifv.FSLog[at:] {
		if strings.HasPrefix(op, "open ") {
			got = op[len("open "):]
		}
	}
	verifv.Assert(verifv.EqS(got, abs), "another file is used than was entered")
	verifv.Reach("file")
}

// Not adding one.
func Harness_Y04_abort() {
	verifv.Bound("addsync scp with each key kind and addsync file, any question ended, interrupted or failing; unknown kinds of target")
	verifv.RandMode = 2
	u, h := someUI()
	u.store.Log = h.log
	st, _ := refState(h.log)
	kind := verifv.Choose("kind", 5)
	line := []string{"addsync scp", "addsync scp", "addsync scp", "addsync file", "addsync " + verifv.String("unknown", 2)}[kind]
	if kind == 4 {
		s := line[len("addsync "):]
		verifv.Assume(verifv.And(s[0] > ' ', s[0] < 127, s[1] > ' ', s[1] < 127))
	}
	stop := []error{io.EOF, verifv.Readline_ErrInterrupt, errors.New("broken")}[verifv.Choose("stop", 3)]
	at := verifv.Choose("at", 8)
	n, stopped := 0, false
	k := 0
	ask(30, func(_ int, prompt, said string) (string, error) {
		if has(prompt, ")> ") && !has(prompt, "(22)") {
			if k++; k == 1 {
				return line, nil
			}
			return "", io.EOF
		}
		if n == at {
			stopped = true
			return "", stop
		}
		n++
		switch {
		case has(prompt, "port (22): "):
			return "", nil
		case has(said, "Key type"):
			return strconv.Itoa(kind + 1), nil
		case has(prompt, "enter/?> "):
			return "m", nil
		}
		return "x", nil
	})
	r := &repl{ctx: u}
	err := r.run()
	if kind == 4 {
		verifv.Assert(err == nil && n == 0, "an unknown kind of target is added")
	}
	if stopped && stop != io.EOF {
		verifv.Assert(err != nil, "an interrupt does not end the session")
	} else {
		verifv.Assert(err == nil, "the session ended")
	}
	if stopped || kind == 4 {
		verifv.Assert(vSameLog(u.store.Log, h.log) && storeIs(u.store, st), "something was added although it was aborted")
		verifv.Reach("nothing")
	} else {
		verifv.Assert(len(u.store.Log) > len(h.log), "nothing was added")
		verifv.Reach("added")
	}
}
