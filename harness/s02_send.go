// package-dir: scpsync
package scpsync

import (
	"bytes"
	"io"

	"github.com/aarondl/bpass/verifv"
)

// s02Gate: a real sink says it is ready, then answers the header line, then the
// whole file and its terminator.
func s02Gate(replies [][]byte, size int) func(p *peer) int {
	return func(p *peer) int {
		n := 1
		if nl := bytes.IndexByte(p.wrote, '\n'); nl >= 0 {
			n++
			if len(p.wrote) >= nl+1+size+1 {
				n++
			}
		}
		avail := 0
		for i := 0; i < n && i < len(replies); i++ {
			avail += len(replies[i])
			if len(replies[i]) == 0 {
				return avail // nothing more will come
			}
			if replies[i][0] == 2 {
				avail = len(p.out) // fatal: the remote is done
				break
			}
		}
		return avail
	}
}

func s02Wire(name string, mode string, data []byte) []byte {
	w := append([]byte("C0"+mode+" "+itoa(len(data))+" "+name+"\n"), data...)
	return append(w, 0)
}

func Harness_S02_replies() {
	verifv.Bound("files of 0..2 bytes; each of the three replies any first byte, with a message of 0..2 characters for warnings and errors; replies whole, byte by byte or cut once")
	data := verifv.Bytes("data", verifv.Choose("size", 3))
	var replies [][]byte
	good := true
	for i := 0; i < 3; i++ {
		c := verifv.Byte("code")
		r := []byte{c}
		if c != 0 {
			good = false
			if c <= 2 {
				for j := verifv.Choose("msg", 3); j > 0; j-- {
					m := verifv.Byte("text")
					verifv.Assume(m >= ' ' && m < 0x7f)
					r = append(r, m)
				}
			}
			r = append(r, '\n')
		}
		replies = append(replies, r)
		if !good {
			break // what a remote says after refusing is its own affair
		}
	}
	var out []byte
	for _, r := range replies {
		out = append(out, r...)
	}
	p := newPeer(out)
	p.gate = s02Gate(replies, len(data))
	fragments(p)
	err := doSend("dir/name", 0600, data)
	verifv.Assert(!p.stuck, "the sender waits for a reply the remote cannot have sent yet")
	if err == nil {
		verifv.Assert(good, "success although the remote did not acknowledge every step")
		verifv.Assert(verifv.EqB(p.wrote, s02Wire("name", "600", data)), "what was sent is not the header, the file and its terminator")
		verifv.Assert(p.closed && verifv.SSHClosed == 1, "the connection was left open")
		verifv.Reach("sent")
		return
	}
	verifv.Assert(!good, "failure although the remote acknowledged every step")
	last := replies[len(replies)-1]
	if last[0] <= 2 {
		e, ok := err.(Err)
		verifv.Assert(ok && e.Code == int(last[0]), "the remote's error code was not passed on")
		verifv.Assert(ok && len(e.Msg) >= len(last)-2 && verifv.EqS(e.Msg[:len(last)-2], string(last[1:len(last)-1])), "the remote's message was not passed on")
	}
	// Nothing after the step that was refused.
	wire := s02Wire("name", "600", data)
	verifv.Assert(len(p.wrote) <= len(wire) && verifv.EqB(p.wrote, wire[:len(p.wrote)]), "something else was sent")
	if len(replies) == 2 {
		verifv.Assert(len(p.wrote) <= bytes.IndexByte(wire, '\n')+1, "file data was sent after the remote refused the header")
	}
	verifv.Reach("reported")
}

// The remote hangs up, or the connection fails, at any point.
func Harness_S02_fault() {
	verifv.Bound("the remote hanging up or losing the connection after 0..2 replies; any connection step or write failing outright or short by 1..3 bytes")
	data := verifv.Bytes("data", verifv.Choose("size", 3)*3)
	p := newPeer([]byte{0, 0, 0})
	what := ""
	switch k := verifv.Choose("what", 3); k {
	case 0:
		n := verifv.Choose("replies", 4)
		p.out = p.out[:n]
		if verifv.Choose("how", 2) == 1 {
			p.end = errPeer
		} else {
			p.end = io.EOF
		}
		if n < 3 {
			what = "reply"
		}
	case 1:
		what = sshFault(p, 1+verifv.Choose("fault", 8))
	default:
		p.failAt, p.shortBy = verifv.Choose("write", 3), 1+verifv.Choose("short", 3)
		what = "write"
	}
	err := doSend("name", 0600, data)
	if what == "" || what == "write" && p.writes <= p.failAt {
		verifv.Assert(err == nil, "failure although everything worked")
		return
	}
	verifv.Assert(err != nil, "a failed step ("+what+") was reported as success")
	if what != "dial" {
		verifv.Assert(verifv.SSHClosed == 1, "the connection was left open")
	}
	verifv.Reach("reported")
}

// Header contents.
func Harness_S02_header() {
	verifv.Bound("file sizes 0..12, 99, 100, 300, 5000, 33000 and (thorough) 70000 of any content, modes 0600, 0644, 0777, 0400, and names with and without directories")
	sizes := []int{99, 100, 300, 5000, 33000, 70000}
	k := verifv.Choose("size", verifv.Pick(18, 19))
	n := k
	if k > 12 {
		n = sizes[k-13]
	}
	data := verifv.Bytes("data", n)
	modes := []int{0600, 0644, 0777, 0400}
	texts := []string{"600", "644", "777", "400"}
	m := verifv.Choose("mode", 4)
	names := []string{"name", "/a/b/name", "./name", "a/name/", "a b/na'me $x", "-name"}
	p := newPeer([]byte{0, 0, 0})
	p.gate = s02Gate([][]byte{{0}, {0}, {0}}, n)
	w := verifv.Choose("name", 6)
	base := []string{"name", "name", "name", "name", "na'me $x", "-name"}[w]
	err := doSend(names[w], modes[m], data)
	verifv.Assert(err == nil, "failure although the remote acknowledged every step")
	verifv.Assert(!p.stuck, "the sender waits for a reply the remote cannot have sent yet")
	verifv.Assert(verifv.EqB(p.wrote, s02Wire(base, texts[m], data)), "what was sent is not the header, the file and its terminator")
	verifv.Reach("sent")
}
