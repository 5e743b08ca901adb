// package-dir: .
package main

import (
	"errors"
	"io"
	"os"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/scpsync"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
	"golang.org/x/crypto/ssh"
)

const syncT0 = int64(1500000000000000000)

// keyring is what a file is encrypted with.
type keyring struct {
	user, pass             string
	key, salt, master, ivm []byte
}

// sealed is a file with that history (and credentials).
func sealed(log []txlogs.Tx, k keyring) []byte { return sealedFor(log, log, k) }

// sealedFor is sealed with the user table of another history.
func sealedFor(users, log []txlogs.Tx, k keyring) []byte {
	t := &uiContext{user: k.user, pass: k.pass, key: k.key, salt: k.salt, master: k.master, ivm: k.ivm}
	t.store = blobformat.Blobs{DB: &txlogs.DB{Log: cpTxs(log)}}
	pt, err := t.store.Save()
	verifv.Assert(err == nil, "a history cannot be saved")
	t.store = blobformat.Blobs{DB: &txlogs.DB{Log: cpTxs(users)}}
	p, err := t.makeParams()
	verifv.Assert(err == nil, "no parameters for a file")
	ct, err := crypt.Encrypt(cryptVersion, p, pt)
	verifv.Assert(err == nil, "a file cannot be encrypted")
	return ct
}

// unsealed is the history in a file, opened with what the user knows.
func unsealed(what string, ct []byte, k keyring) []txlogs.Tx {
	_, _, pt, err := crypt.Decrypt([]byte(k.user), []byte(k.pass), nil, nil, append([]byte(nil), ct...))
	verifv.Assert(err == nil, what+": the copy cannot be opened with the current credentials")
	log, err := txlogs.NewLog(pt)
	verifv.Assert(err == nil, what+": the copy cannot be read")
	return log
}

func ringOf(u *uiContext) keyring {
	return keyring{u.user, u.pass, u.key, u.salt, u.master, u.ivm}
}

func newRing(pass string) keyring {
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte(pass))
	verifv.Assert(err == nil, "deriving a key failed")
	return keyring{pass: pass, key: key, salt: salt}
}

// hist writes histories by hand.
type hist struct {
	log []txlogs.Tx
	t   int64
}

func (h *hist) put(kind txlogs.TxKind, id, k, v string) {
	h.t++
	h.log = append(h.log, txlogs.Tx{Time: h.t, Kind: kind, UUID: id, Key: k, Value: v})
}

func (h *hist) entry(id, name string, kvs ...string) {
	h.put(txlogs.TxAdd, id, "", "")
	h.put(txlogs.TxSetKey, id, blobformat.KeyName, name)
	for i := 0; i+1 < len(kvs); i += 2 {
		h.put(txlogs.TxSetKey, id, kvs[i], kvs[i+1])
	}
}

// The state of a remote copy.
const (
	remMissing = iota
	remGood
	remUnreadable // it exists but fetching fails
	remGarbage    // fetched but not a file of ours, or damaged
	remLocked     // encrypted with a passphrase nobody tells
	remBadLog     // opens, but its content is no history
	remStates
)

// remote is one place the file is synchronised to.
type remote struct {
	id, name string
	scp      bool
	status   int
	log      []txlogs.Tx // the history it holds when good
	ring     keyring
	orig     []byte
	sent     [][]byte
	sendErr  error
	key      ssh.PublicKey // presented by the server; nil skips host checking
}

func (r *remote) path() string { return "/r/" + r.id }

func (r *remote) url() string {
	if r.scp {
		return "scp://u@" + r.id + ":22/r/" + r.id
	}
	return "file://" + r.path()
}

// place puts the remote copies where sync looks for them.
func place(rs []*remote) {
	verifv.PutDir("/r")
	for _, r := range rs {
		switch r.status {
		case remGood, remUnreadable:
			r.orig = sealed(r.log, r.ring)
		case remGarbage:
			r.orig = sealed(r.log, r.ring)
			switch verifv.Choose("damage", 4) {
			case 0:
				r.orig = []byte{}
			case 1:
				r.orig = []byte("not a password file")
			case 2:
				r.orig = r.orig[:len(r.orig)-8]
			default: // another version
				r.orig[11] = '7'
			}
		case remLocked:
			r.orig = sealed(r.log, newRing("zz"))
		case remBadLog:
			p := &crypt.Params{Keys: [][]byte{r.ring.key}, Salts: [][]byte{r.ring.salt}}
			var err error
			r.orig, err = crypt.Encrypt(cryptVersion, p, []byte([]string{`{"log":[{"time":`, "", "[1,2]"}[verifv.Choose("badlog", 3)]))
			verifv.Assert(err == nil, "a file cannot be encrypted")
		}
		if !r.scp && r.status != remMissing {
			verifv.PutFile(r.path(), append([]byte(nil), r.orig...))
			if r.status == remUnreadable {
				verifv.PutDir(r.path()) // reading a directory fails
			}
		}
	}
	find := func(hostport, name string) *remote {
		for _, r := range rs {
			if r.scp && hostport == r.id+":22" && name == "r/"+r.id {
				return r
			}
		}
		verifv.Assert(false, "a place nobody asked for was contacted: "+hostport+" "+name)
		return nil
	}
	check := func(r *remote, hostport string, c *ssh.ClientConfig) error {
		if r.key == nil {
			return nil
		}
		return c.HostKeyCallback(hostport, netAddr(hostport), r.key)
	}
	verifv.ScpRecv = func(hostport string, c *ssh.ClientConfig, name string) ([]byte, error) {
		r := find(hostport, name)
		if err := check(r, hostport, c); err != nil {
			return nil, err
		}
		switch r.status {
		case remMissing:
			return nil, scpsync.Err{Code: 1, Msg: "scp: r: No such file or directory"}
		case remUnreadable:
			return nil, []error{errors.New("connection reset"), scpsync.Err{Code: 1, Msg: "scp: r: Permission denied"}, scpsync.Err{Code: 2, Msg: "No such file or directory"}, io.EOF, os.ErrNotExist}[verifv.Choose("scperr", 5)]
		}
		if len(r.sent) > 0 {
			return append([]byte(nil), r.sent[len(r.sent)-1]...), nil
		}
		return append([]byte(nil), r.orig...), nil
	}
	verifv.ScpSend = func(hostport string, c *ssh.ClientConfig, name string, mode int, data []byte) error {
		r := find(hostport, name)
		if err := check(r, hostport, c); err != nil {
			return err
		}
		if r.sendErr != nil {
			return r.sendErr
		}
		verifv.Assert(mode == 0600, "a remote copy is written readable for others")
		r.sent = append(r.sent, append([]byte(nil), data...))
		return nil
	}
}

// now is what the remote holds after the sync; wrote tells whether it was written.
func (r *remote) now() (data []byte, wrote bool) {
	if r.scp {
		if len(r.sent) == 0 {
			return r.orig, false
		}
		return r.sent[len(r.sent)-1], true
	}
	data, ok := verifv.GetFile(r.path())
	if !ok {
		return nil, false
	}
	if r.status == remMissing {
		return data, true
	}
	return data, !verifv.EqB(data, r.orig)
}

type netAddr string

func (n netAddr) Network() string { return "tcp" }
func (n netAddr) String() string  { return string(n) }

// holds tells whether the history has that record.
func holds(log []txlogs.Tx, tx txlogs.Tx) bool {
	in := false
	for _, t := range log {
		if t.Kind == tx.Kind && t.UUID == tx.UUID && t.Key == tx.Key {
			in = verifv.Or(in, sameTx(t, tx))
		}
	}
	return in
}

// holdsAll tells whether log has all of part, except records of the entry named.
func holdsAll(log, part []txlogs.Tx, except string) bool {
	all := true
	for _, t := range part {
		if t.UUID != except {
			all = verifv.And(all, holds(log, t))
		}
	}
	return all
}

// noHosts drops known host records at the end.
func noHosts(log []txlogs.Tx) []txlogs.Tx {
	for len(log) > 0 && log[len(log)-1].Key == blobformat.KeyKnownHosts {
		log = log[:len(log)-1]
	}
	return log
}

func mentions(out string, ws ...string) bool {
	for _, l := range strings.Split(out, "\n") {
		all := true
		for _, w := range ws {
			all = all && strings.Contains(l, w)
		}
		if all {
			return true
		}
	}
	return false
}

// syncUI is a session on a file with these remotes; the histories share the
// base returned.
func syncUI(rs []*remote) (u *uiContext, base []txlogs.Tx) {
	u = newUI()
	ring := newRing("pw")
	u.pass, u.key, u.salt = ring.pass, ring.key, ring.salt
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old")
	for _, r := range rs {
		r.name = "sync/" + r.id
		r.ring = ring
		h.entry(r.id, r.name, blobformat.KeySync, "true", blobformat.KeyURL, r.url())
	}
	return u, h.log
}

// someUI is a session with one entry.
func someUI() (*uiContext, *hist) {
	verifv.ConcreteCrypto()
	u := newUI()
	ring := newRing("pw")
	u.pass, u.key, u.salt = ring.pass, ring.key, ring.salt
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "v")
	return u, h
}
