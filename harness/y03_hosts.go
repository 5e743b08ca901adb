// package-dir: .
package main

import (
	"errors"
	"io"
	"net"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
	"golang.org/x/crypto/ssh"
)

// hostKey is any public key.
type hostKey struct {
	kind string
	data []byte
}

func (k hostKey) Type() string                                 { return k.kind }
func (k hostKey) Marshal() []byte                              { return k.data }
func (k hostKey) Verify(data []byte, sig *ssh.Signature) error { return nil }

func anyKey(label string) hostKey {
	kinds := []string{ssh.KeyAlgoED25519, ssh.KeyAlgoRSA}
	return hostKey{kinds[verifv.Choose(label+" kind", 2)], verifv.Bytes(label, 3)}
}

func sameKey(a, b hostKey) bool {
	return a.kind == b.kind && verifv.EqB(a.data, b.data)
}

// server is where the remote copy is; it counts connections that came about.
type server struct {
	key       hostKey
	addr      string
	connected int
	hostport  string
	data      []byte
	recvErr   error
	sendErr   error
}

func (s *server) start() {
	dial := func(hostport string, c *ssh.ClientConfig) error {
		verifv.Assert(hostport == s.hostport, "a place nobody asked for was contacted: "+hostport)
		verifv.Assert(c.HostKeyCallback != nil, "host keys are not checked")
		var a net.Addr = netAddr(s.addr)
		if err := c.HostKeyCallback(hostport, a, s.key); err != nil {
			return err
		}
		s.connected++
		return nil
	}
	verifv.ScpRecv = func(hostport string, c *ssh.ClientConfig, name string) ([]byte, error) {
		if err := dial(hostport, c); err != nil {
			return nil, err
		}
		return append([]byte(nil), s.data...), s.recvErr
	}
	verifv.ScpSend = func(hostport string, c *ssh.ClientConfig, name string, mode int, data []byte) error {
		if err := dial(hostport, c); err != nil {
			return err
		}
		if s.sendErr != nil {
			return s.sendErr
		}
		s.data = append([]byte(nil), data...)
		return nil
	}
}

// Two sessions with a server whose keys may be anything.
func Harness_Y03_pinned() {
	verifv.Bound("an scp remote whose server presents any key (3 bytes, two types) at first, accepted with y or Y, refused with n, nothing, yes or by leaving; then any key on the same host, another port, another host or one that is spelt almost like it, from the same or another network address, with lines of junk (any 2 bytes, or one of 9 malformed forms) before or after what was recorded, or the record itself cut or extended; fetching or sending that fails after the key was accepted")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	u := newUI()
	ring := newRing("pw")
	u.pass, u.key, u.salt = ring.pass, ring.key, ring.salt
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old")
	h.entry("a", "sync/a", blobformat.KeySync, "true", blobformat.KeyURL, "scp://u@h:22/f")
	s := &server{key: hostKey{ssh.KeyAlgoED25519, verifv.Bytes("first", 3)}, addr: "1.2.3.4:22", hostport: "h:22", data: sealed(h.log, ring)}
	u.store.Log = append(cpTxs(h.log), txlogs.Tx{Time: syncT0 + 100, Kind: txlogs.TxSetKey, UUID: "e", Key: "k", Value: "new"})
	switch verifv.Choose("fails", 3) {
	case 1:
		s.recvErr = errors.New("no luck")
	case 2:
		s.sendErr = errors.New("no luck")
	}
	s.start()
	first := s.key

	answers := []string{"y", "Y", "n", "", "yes", "", ""}
	k := verifv.Choose("answer", len(answers))
	yes := k < 2
	asked := 0
	question := func(prompt, said, host string) {
		asked++
		verifv.Assert(has(prompt, "Save this host"), "an unexpected question: "+prompt)
		verifv.Assert(has(said, host), "the question does not tell the host")
		verifv.Assert(has(said, s.key.kind), "the question does not tell the key's type")
	}
	ask(8, func(n int, prompt, said string) (string, error) {
		question(prompt, said, "h:22")
		switch k {
		case 5:
			return "", io.EOF
		case 6:
			return "", ErrInterrupt
		}
		return answers[k], nil
	})
	before := cpTxs(u.store.Log)
	push := s.sendErr != nil || verifv.Choose("push", 2) == 1
	verifv.ClearOutput()
	verifv.Assert(u.sync("", true, push) == nil, "sync failed")
	verifv.Assert(asked == 1, "an unknown host key was not put to the user exactly once")
	known := u.store.Snapshot["a"][blobformat.KeyKnownHosts]
	if !yes {
		verifv.Assert(s.connected == 0, "a connection to a host the user refused came about")
		verifv.Assert(known == "", "a refused host is recorded")
		verifv.Assert(vSameLog(u.store.Log, before), "a refused host changed something")
		verifv.Assert(mentions(verifv.Output(), "error pulling", "sync/a"), "a refused host is not reported")
		verifv.Reach("refused")
		return
	}
	verifv.Assert(s.connected > 0, "a host the user accepted was not connected to")
	verifv.Assert(known != "", "an accepted host is not recorded")

	// Later.
	s.recvErr, s.sendErr = nil, nil
	s.key = anyKey("second")
	s.connected = 0
	same := true
	host := verifv.Choose("host", 7)
	if host > 0 {
		s.hostport = []string{"h:23", "hh:22", "h:2", "h:222", "x.h:22", "H:22"}[host-1]
		same = false
	}
	u.store.DB.Set("a", blobformat.KeyURL, "scp://u@"+s.hostport+"/f")
	spoilt := false
	junk := 14
	if host > 2 {
		junk = 1
	}
	if j := verifv.Choose("junk", junk); j == 1 {
		s.addr = "5.6.7.8:22"
	} else if j > 11 {
		// A damaged record is not the host's any more.
		spoilt = true
		if j == 12 {
			known = known[:len(known)-1]
		} else {
			known += "0"
		}
		u.store.DB.Set("a", blobformat.KeyKnownHosts, known)
	} else if j--; j > 0 {
		line := ""
		switch {
		case j == 1:
			line = verifv.String("junk", 2)
		default:
			line = []string{"", "h:22", "h:22 ", "h:22 1.2.3.4:22", "h:22 1.2.3.4:22 " + s.key.kind, "hh:22 5.6.7.8:22 " + s.key.kind + " ", "   ", "h:22 a b c d", "\n\n"}[j-2]
		}
		if j == 2 || j == 7 || j == 9 {
			line += " "
		}
		if verifv.Choose("where", 2) == 1 {
			known = known + "\n" + line
		} else {
			known = line + "\n" + known
		}
		u.store.DB.Set("a", blobformat.KeyKnownHosts, known)
	}
	yes2 := false
	asked = 0
	ask(8, func(n int, prompt, said string) (string, error) {
		question(prompt, said, s.hostport)
		yes2 = verifv.Choose("answer 2", 2) == 1
		if yes2 {
			return "y", nil
		}
		return "n", nil
	})
	verifv.ClearOutput()
	verifv.NoPanic("sync panicked on the recorded hosts", func() {
		verifv.Assert(u.sync("", true, false) == nil, "sync failed")
	})
	now := u.store.Snapshot["a"][blobformat.KeyKnownHosts]
	switch {
	case spoilt && same:
		verifv.Assert(s.connected == 0 || (asked == 1 && yes2), "a damaged record made an unknown key pass")
		verifv.Reach("damaged")
	case !same:
		verifv.Assert(asked == 1, "an unknown host key was not put to the user exactly once")
		verifv.Assert((s.connected > 0) == yes2, "the user's answer about a host was not followed")
		verifv.Assert(yes2 || now == known, "a refused host is recorded")
		verifv.Assert(!yes2 || (strings.HasPrefix(now, known) && len(now) > len(known)), "accepting a host lost what was recorded")
		verifv.Reach("another host")
		if yes2 {
			asked = 0
			verifv.Assert(u.sync("", true, false) == nil, "sync failed")
			verifv.Assert(asked == 0 && s.connected > 1, "an accepted host is not recognised")
		}
	case sameKey(first, s.key):
		verifv.Assert(asked == 0, "a recorded host key was put to the user again")
		verifv.Assert(s.connected > 0, "a host with its recorded key was refused")
		verifv.Assert(now == known, "a recorded host is recorded again")
		verifv.Reach("same key")
	default:
		verifv.Assert(asked == 0, "a changed host key can be accepted by an answer")
		verifv.Assert(s.connected == 0, "a connection to a host with a changed key came about")
		verifv.Assert(mentions(verifv.Output(), "error pulling", "sync/a"), "a changed host key is not reported")
		verifv.Assert(now == known, "a changed host key changed what is recorded")
		verifv.Reach("changed key")
	}
}

// What the user is asked to compare.
func Harness_Y03_fingerprint() {
	verifv.Bound("every key of 3 bytes")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	u := newUI()
	h := &hist{t: syncT0}
	h.entry("a", "sync/a", blobformat.KeySync, "true", blobformat.KeyURL, "scp://u@h:22/f")
	u.store.Log = h.log
	s := &server{key: anyKey("key"), addr: "1.2.3.4:22", hostport: "h:22", recvErr: errors.New("no luck")}
	s.start()
	sum := verifv.Sha256_Sum256(s.key.data)
	digits := "0123456789abcdef"
	want := []byte{}
	for i, b := range sum {
		if i > 0 {
			want = append(want, ':')
		}
		want = append(want, digits[b>>4], digits[b&15])
	}
	ask(1, func(n int, prompt, said string) (string, error) {
		shown := false
		for i := 0; i+len(want) <= len(said); i++ {
			shown = verifv.Or(shown, verifv.EqS(said[i:i+len(want)], string(want)))
		}
		verifv.Assert(shown, "the key's fingerprint is not shown")
		return "n", nil
	})
	verifv.Assert(u.sync("", true, false) == nil, "sync failed")
	verifv.Reach("asked")
}
