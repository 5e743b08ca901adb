// package-dir: .
package main

import "github.com/aarondl/bpass/verifv"

// The documented password classes.
var refClasses = []string{
	"ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "0123456789", "!@#$%^&*",
	"()_+-=<>,.{}[]\\|?/~\"'`",
}

// refPossible: can a password of this length with these minimums exist (negative minimum: class disabled).
func refPossible(length int, mins []int) bool {
	if length < 0 {
		return false
	}
	rest := length
	enabled := false
	for _, m := range mins {
		if m >= 0 {
			enabled = true
		}
		if m > 0 {
			if m > rest {
				return false
			}
			rest -= m
		}
	}
	return rest == 0 || enabled
}

// assertPolicy checks a generated password against the request.
func assertPolicy(p string, length int, mins []int) {
	verifv.Assert(len(p) == length, "generated password has the wrong length")
	counts := make([]int, len(mins))
	for i := 0; i < len(p); i++ {
		in := false
		for c, m := range mins {
			hit := verifv.InSet(p[i], refClasses[c])
			if m >= 0 {
				in = verifv.Or(in, hit)
			}
			counts[c] = counts[c] + verifv.IteI(hit, 1, 0)
		}
		verifv.Assert(in, "generated password has a character of no enabled class")
	}
	for c, m := range mins {
		if m > 0 {
			verifv.Assert(verifv.Not(verifv.LtI(counts[c], m)), "generated password has too few characters of a class")
		}
	}
}
