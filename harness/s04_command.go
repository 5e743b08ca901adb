// package-dir: scpsync
package scpsync

import (
	"errors"

	"github.com/aarondl/bpass/verifv"
)

// shellWords splits a command line the way a POSIX shell does; ok tells that it
// is one simple command without anything the shell would replace. A tilde that
// would be is kept.
func shellWords(s string) (words []string, ok bool) {
	var w []byte
	in, quote := false, byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case quote == '\'':
			if c == '\'' {
				quote = 0
			} else {
				w = append(w, c)
			}
		case c == '\\':
			if quote != 0 && (i+1 >= len(s) || s[i+1] != '$' && s[i+1] != '`' && s[i+1] != '"' && s[i+1] != '\\') {
				w = append(w, c) // stands for itself
				continue
			}
			i++
			if i >= len(s) {
				return nil, false
			}
			w, in = append(w, s[i]), true
		case quote == '"':
			if c == '"' {
				quote = 0
			} else if c == '$' || c == '`' {
				return nil, false
			} else {
				w = append(w, c)
			}
		case c == '\'' || c == '"':
			quote, in = c, true
		case c == ' ' || c == '\t':
			if in {
				words, w, in = append(words, string(w)), nil, false
			}
		case c >= 'a' && c <= 'z' || c >= '-' && c <= '9' || c >= 'A' && c <= 'Z' || c == '_' || c == '@' || c == '%' || c == '+' || c == '=' || c == ':' || c == ',' || c >= 0x80 || c == '~' || c == '^' || c == ']' || c == '}':
			w, in = append(w, c), true
		default: // the shell makes something of it
			return nil, false
		}
	}
	if quote != 0 {
		return nil, false
	}
	if in {
		words = append(words, string(w))
	}
	return words, true
}

// Harness_S04_command looks at what the remote is told to run.
func Harness_S04_command() {
	verifv.Bound("file names of any 1..3 (thorough 4) characters other than line ends and NUL, alone or after a letter, a blank, a dash, or ~/ ; receiving and sending")
	pre := []string{"", "d/", "a b", "-", "~/", "~"}[verifv.Choose("before", 6)]
	n := 1 + verifv.Choose("length", verifv.Pick(3, 4))
	any := verifv.String("name", n)
	for i := range []byte(any) {
		verifv.Assume(verifv.And(any[i] != 0, any[i] != '\n', any[i] != '\r', any[i] < 0x80))
	}
	if pre == "" || pre == "~" {
		verifv.Assume(any[0] != '~')
	}
	if pre == "~" { // the home directory of somebody else is no concern
		verifv.Assume(any[0] == ' ')
	}
	name := pre + any
	stop := errors.New("stop")
	verifv.SSHStart = func(cmd string) error { return stop }
	verifv.SSHCmds = nil
	flag := byte('f')
	var err error
	if verifv.Choose("send", 2) == 1 {
		flag = 't'
		err = Send("h:22", nil, name, 0600, []byte("x"))
	} else {
		_, err = Recv("h:22", nil, name)
	}
	verifv.Assert(err == stop, "a command that cannot be started is not reported")
	verifv.Assert(len(verifv.SSHCmds) == 1, "not exactly one command is run")
	words, ok := shellWords(verifv.SSHCmds[0])
	verifv.Assert(ok, "the remote's shell would not take the file name as it is")
	verifv.Assert(len(words) > 2 && words[0] == "scp", "the remote is not told to run scp on one file")
	way := false
	rest := words[1:]
	for len(rest) > 0 && len(rest[0]) > 1 && rest[0][0] == '-' {
		o := rest[0]
		rest = rest[1:]
		if o == "--" {
			break
		}
		for i := 1; i < len(o); i++ {
			if o[i] == flag {
				way = true
			}
			verifv.Assert(o[i] == flag || o[i] == 'q', "the remote is given another option")
		}
	}
	verifv.Assert(way, "the remote is not told to transfer a file this way")
	verifv.Assert(len(rest) == 1, "the remote is not told to transfer one file")
	if name[0] == '-' {
		verifv.Assert(verifv.Or(verifv.EqS(rest[0], name), verifv.EqS(rest[0], "./"+name)), "another file is transferred")
	} else {
		verifv.Assert(verifv.EqS(rest[0], name), "another file is transferred")
	}
	verifv.Observe("cmd", verifv.SSHCmds[0])
	verifv.Reach("told")
}
