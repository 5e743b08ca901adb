// package-dir: pinentry
package pinentry

import (
	"errors"
	"io"

	"github.com/aarondl/bpass/verifv"
)

var errGone = errors.New("pinentry died")

// pin is a scripted pinentry program: replies[i] answers the i-th command.
type pin struct {
	replies []string
	ready   []byte
	wrote   []byte
	cmds    []string
	failAt  int
	writes  int
	one     bool
	end     error
}

func (p *pin) Read(b []byte) (int, error) {
	if len(p.ready) == 0 {
		return 0, p.end
	}
	n := len(p.ready)
	if n > len(b) {
		n = len(b)
	}
	if p.one {
		n = 1
	}
	copy(b, p.ready[:n])
	p.ready = p.ready[n:]
	return n, nil
}

func (p *pin) Write(b []byte) (int, error) {
	n := p.writes
	p.writes++
	if n == p.failAt {
		return 0, errGone
	}
	for _, c := range b {
		p.wrote = append(p.wrote, c)
		if c == '\n' {
			p.cmds = append(p.cmds, string(p.wrote))
			p.wrote = nil
			if len(p.cmds) <= len(p.replies) {
				p.ready = append(p.ready, p.replies[len(p.cmds)-1]...)
			}
		}
	}
	return len(b), nil
}

func (p *pin) Close() error { return nil }

func newPin(greeting string, replies ...string) *pin {
	p := &pin{ready: []byte(greeting), replies: replies, failAt: -1, end: io.EOF}
	verifv.PipeIn, verifv.PipeOut = p, p
	verifv.Env = map[string]string{"PINENTRY": "pinentry"}
	return p
}

const hello = "OK Pleased to meet you\n"

func ask(prompt string) (pass string, err error) {
	verifv.NoPanic("asking for a passphrase panicked", func() { pass, err = Password(prompt) })
	return pass, err
}

// refDecode undoes the protocol's percent escapes.
func refDecode(s []byte) (out []byte) {
	hex := func(c byte) int {
		switch {
		case c >= '0' && c <= '9':
			return int(c - '0')
		case c >= 'A' && c <= 'F':
			return int(c-'A') + 10
		case c >= 'a' && c <= 'f':
			return int(c-'a') + 10
		}
		return -1
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && hex(s[i+1]) >= 0 && hex(s[i+2]) >= 0 {
			out = append(out, byte(hex(s[i+1])<<4|hex(s[i+2])))
			i += 2
			continue
		}
		out = append(out, s[i])
	}
	return out
}

const upper, lower = "0123456789ABCDEF", "0123456789abcdef"

// Every typed text, escaped the way the protocol says, comes back exactly.
func Harness_N01_typed() {
	verifv.Bound("every typed text of 0..3 bytes (thorough 5) of any value but NUL, escapes in upper or lower case hexadecimal, reply whole or byte by byte")
	text := verifv.Bytes("typed", verifv.Choose("len", verifv.Pick(4, 6)))
	digits := upper
	if verifv.Choose("lower", 2) == 1 {
		digits = lower
	}
	var esc []byte
	for _, c := range text {
		verifv.Assume(c != 0)
		if c == '%' || c == '\r' || c == '\n' {
			v := byte('%')
			switch c {
			case '\r':
				v = 13
			case '\n':
				v = 10
			}
			esc = append(esc, '%', digits[v>>4], digits[v&15])
			continue
		}
		esc = append(esc, c)
	}
	p := newPin(hello, "OK\n", "OK\n", "OK\n", "D "+string(esc)+"\nOK\n")
	p.one = verifv.Choose("fragments", 2) == 1
	if len(text) == 0 && verifv.Choose("nodata", 2) == 1 {
		p.replies[3] = "OK\n"
	}
	pass, err := ask("prompt: ")
	verifv.Assert(err == nil, "a typed passphrase was refused")
	verifv.Assert(verifv.EqS(pass, string(text)), "the passphrase differs from the text typed")
	verifv.Reach("typed")
}

// Any reply at all to GETPIN.
func Harness_N01_reply() {
	verifv.Bound("every reply of 0..5 bytes (thorough 7) to the passphrase request, then nothing or OK, or a lost connection")
	n := verifv.Choose("len", verifv.Pick(6, 8))
	r := verifv.Bytes("reply", n)
	tail := []string{"", "\n", "\nOK\n", "\nERR 83886179 Operation cancelled <Pinentry>\n"}[verifv.Choose("tail", 4)]
	pre := []string{"", "D ", "ERR "}[verifv.Choose("pre", 3)]
	p := newPin(hello, "OK\n", "OK\n", "OK\n", pre+string(r)+tail)
	if verifv.Choose("end", 2) == 1 {
		p.end = errGone
	}
	pass, err := ask("prompt")
	if err != nil {
		verifv.Reach("refused")
		return
	}
	// what the protocol makes of it
	all := pre + string(r) + tail
	var lines [][]byte
	cur := []byte{}
	for i := 0; i < len(all); i++ {
		if all[i] == '\n' {
			lines = append(lines, cur)
			cur = []byte{}
			continue
		}
		cur = append(cur, all[i])
	}
	if len(cur) > 0 {
		lines = append(lines, cur)
	}
	var data []byte
	got := false
	for _, l := range lines {
		if len(l) > 0 && l[len(l)-1] == '\r' {
			l = l[:len(l)-1]
		}
		if len(l) >= 2 && l[0] == 'D' && l[1] == ' ' {
			data = append(data, l[2:]...)
			got = true
			continue
		}
		if len(l) >= 3 && string(l[:3]) == "ERR" {
			verifv.Assert(!got && pass == "", "a passphrase was returned although the program reported an error")
			return
		}
		if len(l) >= 2 && string(l[:2]) == "OK" {
			break
		}
	}
	for i := 0; i+2 < len(data); i++ { // escapes pinentry never sends are read either way
		if data[i] == '%' {
			verifv.Assume(verifv.Or(verifv.EqB(data[i+1:i+3], []byte("25")), verifv.EqB(data[i+1:i+3], []byte("0A")), verifv.EqB(data[i+1:i+3], []byte("0D"))))
		}
	}
	verifv.Assert(verifv.EqS(pass, string(refDecode(data))), "the passphrase differs from the text typed")
	verifv.Reach("accepted")
}

// Commands sent are single lines with the text escaped; only the expected dialogue happens.
func Harness_N01_sent() {
	verifv.Bound("every prompt of 0..3 bytes (thorough 5), TERM and DISPLAY set to any 0..1 bytes")
	n := verifv.Choose("len", verifv.Pick(4, 6))
	prompt := verifv.Bytes("prompt", n)
	p := newPin(hello, "OK\n", "OK\n", "OK\n", "OK\n", "OK\n", "OK\n", "OK\n")
	if verifv.Choose("env", 2) == 1 && n < 3 {
		verifv.Env["TERM"] = string(verifv.Bytes("term", 1))
		verifv.Env["DISPLAY"] = string(verifv.Bytes("display", 1))
	}
	_, err := ask(string(prompt))
	verifv.Assert(err == nil, "a dialogue without any trouble failed")
	verifv.Assert(len(p.wrote) == 0, "an unfinished line was sent")
	var desc []byte
	descs, pins, others := 0, 0, 0
	for _, c := range p.cmds {
		switch {
		case len(c) > 8 && c[:8] == "SETDESC ":
			desc = []byte(c[8 : len(c)-1])
			descs++
		case c == "GETPIN\n":
			pins++
		case len(c) > 7 && c[:7] == "OPTION ", len(c) > 9 && c[:9] == "SETTITLE ", c == "BYE\n", len(c) > 10 && c[:10] == "SETPROMPT ":
		default:
			others++
		}
	}
	verifv.Assert(pins == 1 && others == 0 && descs <= 1, "text from the prompt or environment became a command of its own")
	if n > 0 {
		verifv.Assert(verifv.EqB(refDecode(desc), prompt), "the prompt shown differs from the prompt given")
		for _, b := range desc {
			verifv.Assert(b != '\r', "a raw carriage return was sent")
		}
	}
	verifv.Reach("sent")
}

// Refusals, a broken pipe or an early end at any step give an error.
func Harness_N01_fault() {
	verifv.Bound("any greeting of 0..3 bytes or the right one with one byte altered; any setup step answered by ERR, any 0..2 bytes, or nothing; any write failing; bad exit status; program missing or disabled")
	step := verifv.Choose("step", 8)
	replies := []string{"OK\n", "OK\n", "OK\n", "D pw\nOK\n"}
	p := newPin(hello, replies...)
	switch {
	case step == 0:
		p.ready = append(verifv.Bytes("greeting", verifv.Choose("len", 4)), '\n')
	case step == 1:
		p.ready = []byte(hello)
		at := verifv.Choose("at", len(hello)-1)
		b := verifv.Byte("byte")
		verifv.Assume(b != hello[at] && b != '\n')
		p.ready[at] = b
	case step < 5:
		bad := []string{"ERR 1 no\n", "", "OKAY\n", "ok\n", "D x\n"}[verifv.Choose("bad", 5)]
		p.replies[step-2] = bad
	case step == 5:
		p.failAt = verifv.Choose("write", 5)
	case step == 6:
		verifv.ExecHook = func(*verifv.Exec_Cmd) error { return errGone }
	default:
		switch verifv.Choose("program", 5) {
		case 0:
			verifv.PipeIn = nil
		case 1:
			verifv.PipeOut = nil
		case 2:
			verifv.StartHook = func(*verifv.Exec_Cmd) error { return errGone }
		case 3:
			verifv.Env["PINENTRY"] = []string{"none", "NONE", "None"}[verifv.Choose("none", 3)]
			_, err := ask("p")
			verifv.Assert(err == ErrNotFound, "a disabled pinentry was not reported as missing")
			return
		default:
			verifv.Env["PINENTRY"] = ""
			cachedReset()
			_, err := ask("p")
			verifv.Assert(err == ErrNotFound, "a missing pinentry was not reported as missing")
			return
		}
	}
	_, err := ask("p")
	if step == 5 && p.writes <= p.failAt {
		return
	}
	verifv.Assert(err != nil && err != ErrNotFound, "a failed dialogue gave no error")
	verifv.Reach("reported")
}

// cachedReset: nothing was found before (package state is fresh in every run).
func cachedReset() { verifv.Programs = map[string]bool{} }

// A user who cancels gives no passphrase and no error.
func Harness_N01_cancel() {
	verifv.Bound("the cancel reply with any two-digit code")
	code := verifv.Bytes("code", 2)
	for _, c := range code {
		verifv.Assume(c >= '0' && c <= '9')
	}
	newPin(hello, "OK\n", "OK\n", "OK\n", "ERR "+string(code)+" Operation cancelled <Pinentry>\n")
	pass, err := ask("p")
	verifv.Assert(pass == "" && err == nil, "cancelling is not reported as documented")
	verifv.Reach("cancelled")
}

// Long texts.
func Harness_N01_long() {
	verifv.Bound("typed texts of 100, 255, 256, 900 and (thorough) 4000 and 5000 bytes, the last two and one in the middle of any value but NUL; one prompt of that length, the last two bytes anything; the reply whole or in pieces of one byte")
	n := []int{100, 255, 256, 900, 4000, 5000}[verifv.Choose("len", verifv.Pick(4, 6))]
	text := make([]byte, 0, n)
	for i := 0; i < n-2; i++ {
		text = append(text, "aZ 0+&~"[i%7])
	}
	text[n/2] = verifv.Byte("mid")
	text = append(text, verifv.Bytes("end", 2)...)
	var esc []byte
	for _, c := range text {
		verifv.Assume(c != 0)
		switch c {
		case '%':
			esc = append(esc, "%25"...)
		case '\r':
			esc = append(esc, "%0D"...)
		case '\n':
			esc = append(esc, "%0A"...)
		default:
			esc = append(esc, c)
		}
	}
	p := newPin(hello, "OK\n", "OK\n", "OK\n", "D "+string(esc)+"\nOK\n")
	p.one = verifv.Choose("fragments", 2) == 1
	pass, err := ask("prompt: ")
	verifv.Assert(err == nil, "a typed passphrase was refused")
	verifv.Assert(verifv.EqS(pass, string(text)), "the passphrase differs from the text typed")
	verifv.Reach("typed")
}
