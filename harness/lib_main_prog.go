// package-dir: .
package main

import (
	"io"

	"github.com/aarondl/bpass/verifv"
)

// run runs the whole program; end is "" when main returned, "exit<n>" when it
// left with that status, "panic: ..." or "crash".
func run(flags map[string]string, cmd string, pos ...string) (end string) {
	resetMain()
	verifv.CliFlags, verifv.CliCmd, verifv.CliPos = flags, cmd, pos
	versionCmd.Used, genCmd.Used, lpassImportCmd.Used, exportCmd.Used = false, false, false, false
	return verifv.Catch(main)
}

// failed tells whether that end tells the caller that something went wrong.
func failed(end string) bool { return end != "" && end != "exit0" }

// types answers the questions for the user name and passphrase and types the
// lines at the prompt; then the input ends.
func types(c cred, lines ...string) *dialog {
	k := 0
	return ask(60, func(n int, prompt, said string) (string, error) {
		switch {
		case has(prompt, "passphrase: "):
			return c.pass, nil
		case has(prompt, " user: "):
			return c.user, nil
		}
		if k < len(lines) {
			k++
			return lines[k-1], nil
		}
		return "", io.EOF
	})
}

// mishap lets the machine or program stop, or an operation fail, at any of the
// next file operations, writes having written any of some amounts.
func mishap(steps, size int) (crash bool) {
	at := verifv.FSStep + verifv.Choose("step", steps)
	crash = verifv.Choose("crash", 2) == 1
	if crash {
		verifv.FSCrash = at
	} else {
		verifv.FSFault = at
	}
	verifv.FSPartial = []int{0, 1, 17, size / 2, size - 1, size}[verifv.Choose("partial", 6)]
	return crash
}

func noMishap() { verifv.FSCrash, verifv.FSFault, verifv.FSPartial = -1, -1, 0 }
