// package-dir: scpsync
package scpsync

import (
	"errors"
	"io"
	"strconv"

	"github.com/aarondl/bpass/verifv"
	"golang.org/x/crypto/ssh"
)

var errPeer = errors.New("connection lost")

// peer is the other end of an scp session. Its output becomes available step
// by step, as gate says how many bytes may be read after the client wrote w.
type peer struct {
	out      []byte // everything the remote will ever send
	at       int
	gate     func(p *peer) int // how much of out is available; nil: all
	frag     func(max int) int // size of a read
	end      error             // after the last byte
	wrote    []byte            // what the client sent
	writes   int
	failAt   int // write that fails, -1 never
	shortBy  int
	closed   bool
	closeErr error
	stuck    bool // the client waited for something the remote will not send
}

func (p *peer) Read(b []byte) (int, error) {
	avail := len(p.out)
	if p.gate != nil {
		avail = p.gate(p)
	}
	if p.at >= avail {
		if avail < len(p.out) {
			p.stuck = true
			return 0, errPeer
		}
		return 0, p.end
	}
	n := avail - p.at
	if n > len(b) {
		n = len(b)
	}
	if p.frag != nil {
		n = p.frag(n)
	}
	copy(b, p.out[p.at:p.at+n])
	p.at += n
	return n, nil
}

func (p *peer) Write(b []byte) (int, error) {
	n := p.writes
	p.writes++
	if n == p.failAt {
		k := len(b) - p.shortBy
		if k < 0 {
			k = 0
		}
		p.wrote = append(p.wrote, b[:k]...)
		return k, errPeer
	}
	p.wrote = append(p.wrote, b...)
	return len(b), nil
}

func (p *peer) Close() error { p.closed = true; return p.closeErr }

func newPeer(out []byte) *peer {
	p := &peer{out: out, end: io.EOF, failAt: -1}
	verifv.SSHIn, verifv.SSHOut = p, p
	return p
}

// fragments chooses how the remote's bytes arrive.
func fragments(p *peer) {
	switch verifv.Choose("fragments", 3) {
	case 1:
		p.frag = func(int) int { return 1 }
	case 2:
		first := true
		p.frag = func(max int) int {
			if first && max > 1 {
				first = false
				return 1 + verifv.Choose("cut", max)
			}
			return max
		}
	}
}

// sshFault makes one step of the connection fail; it reports whether it did.
func sshFault(p *peer, n int) string {
	switch n {
	case 0:
		return ""
	case 1:
		verifv.SSHDial = func(string, string, *ssh.ClientConfig) error { return errPeer }
		return "dial"
	case 2:
		verifv.SSHSession = func() error { return errPeer }
		return "session"
	case 3:
		verifv.SSHPipes = func(w int) error {
			if w == 0 {
				return errPeer
			}
			return nil
		}
		return "stdin"
	case 4:
		verifv.SSHPipes = func(w int) error {
			if w == 1 {
				return errPeer
			}
			return nil
		}
		return "stdout"
	case 5:
		verifv.SSHStart = func(string) error { return errPeer }
		return "start"
	case 6:
		verifv.SSHWait = func() error { return errPeer }
		return "wait"
	case 7:
		verifv.SSHClose = func() error { return errPeer }
		return "disconnect"
	}
	p.closeErr = errPeer
	return "close"
}

func doRecv() (content []byte, err error) {
	verifv.NoPanic("receiving panicked", func() { content, err = Recv("host:22", &ssh.ClientConfig{}, "dir/file") })
	return content, err
}

func doSend(name string, mode int, content []byte) (err error) {
	verifv.NoPanic("sending panicked", func() { err = Send("host:22", &ssh.ClientConfig{}, name, mode, content) })
	return err
}

// refParse reads a complete source-side stream: C<octal> <decimal> <name>\n data \0.
// strict: the header is exactly in the documented form; ok: the file is complete.
func refParse(s []byte) (data []byte, strict, ok bool) {
	nl := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			nl = i
			break
		}
	}
	if nl < 0 || s[0] != 'C' {
		return nil, false, false
	}
	h := s[1:nl]
	f := [3][]byte{}
	k := 0
	for i := 0; i < len(h); i++ {
		if h[i] == ' ' && k < 2 {
			k++
			continue
		}
		f[k] = append(f[k], h[i])
	}
	if k != 2 || len(f[0]) == 0 || len(f[1]) == 0 || len(f[2]) == 0 || len(f[1]) > 6 {
		return nil, false, false
	}
	for _, c := range f[0] {
		if c < '0' || c > '7' {
			return nil, false, false
		}
	}
	n := 0
	for _, c := range f[1] {
		if c < '0' || c > '9' {
			return nil, false, false
		}
		n = n*10 + int(c-'0')
	}
	for _, c := range f[2] {
		if c < ' ' || c == 0x7f {
			return nil, false, false
		}
	}
	rest := s[nl+1:]
	if len(rest) < n+1 || rest[n] != 0 {
		return nil, true, false
	}
	return rest[:n], true, true
}

func itoa(n int) string { return strconv.Itoa(n) }
