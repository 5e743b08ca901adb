// package-dir: scpsync
package scpsync

import (
	"strings"

	"github.com/aarondl/bpass/verifv"
)

const s03Text = "No such file or directory"

// Every reply to a receive request: not found exactly when it says so.
func Harness_S03_recv() {
	verifv.Bound("any first byte followed by: the no-such-file text in any letter case, with any one character altered or removed, after any of four prefixes; or other failures' texts; delivered whole, byte by byte or cut once")
	code := verifv.Byte("code")
	verifv.Assume(code != 'C')
	prefix := []string{"scp: ", "scp: /x/y: ", "", "warning "}[verifv.Choose("prefix", 4)]
	text := []byte(s03Text)
	said := true
	switch verifv.Choose("text", 4) {
	case 0:
		for i, c := range text { // any letter case
			if c != ' ' && verifv.Tier() > 0 || i < 3 {
				text[i] ^= byte(verifv.IteI(verifv.And(verifv.Bool("case"), c != ' '), 0x20, 0))
			}
		}
	case 1: // one character altered
		at := verifv.Choose("at", len(text))
		c := verifv.Byte("other")
		verifv.Assume(c >= ' ' && c < 0x7f)
		verifv.Assume(c|0x20 != text[at]|0x20)
		text[at] = c
		said = false
	case 2: // one character missing
		at := verifv.Choose("at", len(text))
		text = append(text[:at:at], text[at+1:]...)
		said = false
	default:
		text = []byte([]string{"", "Permission denied", "Is a directory", "Connection refused", "not a regular file", "not found"}[verifv.Choose("other", 6)])
		said = false
	}
	s := append([]byte{code}, prefix...)
	s = append(append(s, text...), '\n')
	p := newPeer(s)
	fragments(p)
	_, err := doRecv()
	verifv.Assert(err != nil, "a refusal was taken for a file")
	missing := IsNotFoundErr(err)
	if missing {
		verifv.Assert(code == 1 && said, "another failure was taken for a missing file")
		verifv.Reach("missing")
	} else {
		verifv.Assert(!(code == 1 && said), "a missing file was not recognised")
		verifv.Reach("other failure")
	}
}

// Connection failures are never taken for a missing file, whatever their text says.
func Harness_S03_fault() {
	verifv.Bound("every connection step failing with an error whose text says no such file, truncated streams, and a reply cut off before its end")
	p := newPeer([]byte("\x01scp: x: " + s03Text + "\n"))
	f := verifv.Choose("fault", 11)
	switch f {
	case 8: // the reply never ends
		p.out = p.out[:verifv.Choose("cut", len(p.out))]
	case 9: // a complete file, then the text
		p.out = []byte("C0600 1 x\nab\x01" + s03Text + "\n")
	case 10: // exit status text after a file
		p.out = []byte("C0600 1 x\na\x00")
		verifv.SSHWait = func() error { return errNoSuch{} }
	default:
		if f > 0 {
			what := sshFault(p, f)
			if what == "wait" || what == "disconnect" {
				return // the remote did say it: which of the two failures is reported is free
			}
		}
	}
	_, err := doRecv()
	verifv.Assert(err != nil, "a failure was taken for a file")
	verifv.Assert(IsNotFoundErr(err) == (f == 0), "a failed connection was taken for a missing file, or the other way round")
	verifv.Reach("told apart")
}

type errNoSuch struct{}

func (errNoSuch) Error() string { return "error code 1 (" + s03Text + ")" }

// The predicate itself on every code and on other error types.
func Harness_S03_predicate() {
	verifv.Bound("Err values of every code with the exact, altered and unrelated texts; other error types with the same text; nil")
	code := verifv.Int("code", -1000, 1000)
	msg := []string{"scp: f: " + s03Text + "\n", strings.ToUpper(s03Text), "no such file", "Permission denied", ""}
	m := verifv.Choose("msg", len(msg))
	verifv.Assert(verifv.Iff(IsNotFoundErr(Err{Code: code, Msg: msg[m]}), code == 1 && m < 2), "wrong verdict for a reply")
	verifv.Assert(!IsNotFoundErr(errNoSuch{}), "an error that is not a reply was taken for one")
	verifv.Assert(!IsNotFoundErr(nil), "success was taken for a missing file")
}
