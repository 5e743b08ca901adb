// package-dir: scpsync
package scpsync

import (
	"bytes"

	"github.com/aarondl/bpass/verifv"
)

// s01Gate: a real source sends its header after the first acknowledgement, the
// data after the second, and ends after the third.
func s01Gate(p *peer) int {
	nl := bytes.IndexByte(p.out, '\n')
	acks := len(p.wrote)
	switch {
	case acks == 0:
		return 0
	case acks == 1 && nl >= 0:
		return nl + 1
	}
	return len(p.out)
}

func s01Check(p *peer, s []byte) {
	content, err := doRecv()
	verifv.Assert(!p.stuck, "the receiver waits for data before acknowledging what it has")
	for _, b := range p.wrote {
		verifv.Assert(b == 0, "something other than acknowledgements was sent")
	}
	data, strict, ok := refParse(s)
	if err != nil {
		verifv.Assert(content == nil, "content was returned together with an error")
		verifv.Assert(!ok, "a complete file was refused")
		verifv.Reach("refused")
		return
	}
	if strict {
		verifv.Assert(ok, "a truncated or unterminated file was accepted")
		verifv.Assert(verifv.EqB(content, data), "the bytes received are not the bytes announced")
		verifv.Reach("received")
	}
	verifv.Assert(len(p.wrote) == 3, "the receiver did not send the three acknowledgements")
	verifv.Assert(p.closed && verifv.SSHClosed == 1, "the connection was left open")
}

// Arbitrary short streams.
func Harness_S01_raw() {
	verifv.Bound("every byte stream of 0..4 bytes (thorough 0..7), delivered whole, byte by byte or cut once, ending in EOF or a lost connection")
	n := verifv.Choose("len", verifv.Pick(5, 8))
	s := verifv.Bytes("stream", n)
	p := newPeer(s)
	p.gate = s01Gate
	fragments(p)
	if verifv.Choose("end", 2) == 1 {
		p.end = errPeer
	}
	s01Check(p, s)
}

// Headers of the right shape with any length text and any amount of data.
func Harness_S01_header() {
	verifv.Bound("headers C0644 <any 1..2 (thorough 3) of the characters 0 1 2 3 8 9 - + space x as length> name, with 0..4 (thorough 0..12) further arbitrary bytes")
	l := verifv.Bytes("length", 1+verifv.Choose("lengthlen", verifv.Pick(2, 3)))
	for _, c := range l {
		verifv.Assume(verifv.InSet(c, "012389-+ x"))
	}
	s := append([]byte("C0644 "), l...)
	s = append(append(s, []byte(" name\n")...), verifv.Bytes("data", verifv.Choose("datalen", verifv.Pick(5, 13)))...)
	p := newPeer(s)
	p.gate = s01Gate
	fragments(p)
	s01Check(p, s)
}

// The name in the header is the rest of the line.
func Harness_S01_name() {
	verifv.Bound("headers with every name of 1..3 (thorough 4) bytes and 0..2 bytes of data")
	name := verifv.Bytes("name", 1+verifv.Choose("namelen", verifv.Pick(3, 4)))
	for _, c := range name {
		verifv.Assume(c != '\n')
	}
	n := verifv.Choose("datalen", 3)
	s := append([]byte("C0644 "+itoa(n)+" "), name...)
	s = append(append(append(s, '\n'), verifv.Bytes("data", n)...), 0)
	p := newPeer(s)
	p.gate = s01Gate
	s01Check(p, s)
}

// Complete, truncated and overlong files of larger sizes.
func Harness_S01_sizes() {
	verifv.Bound("files of 0..20 bytes and 300, 5000 and (thorough) 70000 bytes of any content, any terminator byte, cut off at any of the last 3 bytes, or followed by 1 more byte, in any two pieces")
	sizes := []int{300, 5000, 70000}
	k := verifv.Choose("size", verifv.Pick(23, 24))
	n := k
	if k > 20 {
		n = sizes[k-21]
	}
	data := verifv.Bytes("data", n)
	s := append([]byte("C0600 "+itoa(n)+" name\n"), data...)
	s = append(s, verifv.Bytes("end", 1)...)
	switch cut := verifv.Choose("cut", 5); {
	case cut == 4:
		s = append(s, 'x')
	case cut > n+1:
		return
	default:
		s = s[:len(s)-cut]
	}
	p := newPeer(s)
	p.gate = s01Gate
	if n <= 20 {
		fragments(p)
	}
	s01Check(p, s)
}

// A failing connection is an error, never a file.
func Harness_S01_fault() {
	verifv.Bound("each connection step failing (dial, session, pipes, start, any of 3 writes, close, exit status, disconnect)")
	s := append([]byte("C0600 3 name\n"), verifv.Bytes("data", 3)...)
	s = append(s, 0)
	p := newPeer(s)
	p.gate = s01Gate
	f := verifv.Choose("fault", 12)
	what := ""
	if f > 8 {
		p.failAt, p.shortBy = f-9, 1
		what = "write"
	} else {
		what = sshFault(p, f)
	}
	content, err := doRecv()
	if what == "" {
		verifv.Assert(err == nil && verifv.EqB(content, s[13:16]), "a complete file was refused")
		return
	}
	verifv.Assert(err != nil, "a failed connection step ("+what+") was not reported")
	if what != "dial" {
		verifv.Assert(verifv.SSHClosed == 1, "the connection was left open")
	}
	verifv.Reach("reported")
}

// The length is a plain decimal number: other notations are never read as one.
func Harness_S01_digits() {
	verifv.Bound("length texts of unusual notation (leading zeros, signs, hexadecimal, binary, octal, underscores, fractions, exponents) followed by 0..17 bytes of any data and any terminator byte")
	texts := []string{"010", "08", "0x9", "0b1", "1_0", "0o7", "+7", "-0", "0x0", "1e1", "1.0", "0010", "00", "0X1", "١"}
	l := texts[verifv.Choose("text", len(texts))]
	s := append([]byte("C0644 "+l+" name\n"), verifv.Bytes("data", verifv.Choose("datalen", 18))...)
	p := newPeer(s)
	p.gate = s01Gate
	s01Check(p, s)
}

// Large files whose content does not matter.
func Harness_S01_large() {
	verifv.Bound("files of 32767, 32768, 65535, 65536, 100000 and (thorough) 1048577 fixed bytes, whole, or cut off at any of the last 2 bytes, arriving at once or in pieces of up to 4096")
	verifv.StepLimit(200000000)
	sizes := []int{32767, 32768, 65535, 65536, 100000, 1048577}
	n := sizes[verifv.Choose("size", verifv.Pick(5, 6))]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7 >> uint(i%3))
	}
	s := append([]byte("C0600 "+itoa(n)+" name\n"), data...)
	s = append(s, 0)
	cut := verifv.Choose("cut", 3)
	s = s[:len(s)-cut]
	p := newPeer(s)
	p.gate = s01Gate
	if verifv.Choose("pieces", 2) == 1 {
		p.frag = func(max int) int {
			if max > 4096 {
				return 4096
			}
			return max
		}
	}
	content, err := doRecv()
	if cut > 0 {
		verifv.Assert(err != nil, "a file that was cut off was accepted")
		verifv.Reach("cut")
		return
	}
	verifv.Assert(err == nil, "a complete file was refused")
	verifv.Assert(string(content) == string(data), "the file received is not the one sent")
	verifv.Reach("whole")
}
