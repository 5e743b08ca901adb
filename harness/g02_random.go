// package-dir: .
package main

import (
	"strconv"

	"github.com/aarondl/bpass/verifv"
)

// Every character of every enabled class can occur at every position.
func Harness_G02_complete() {
	mixes := [][]int{{0, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {-1, 1, -1, 1, -1}, {-1, -1, 0, -1, 1}, {1, -1, -1, -1, 0}, {-1, -1, 1, 0, -1}}
	m := verifv.Choose("mix", len(mixes))
	mins := mixes[m]
	length := 2 + verifv.Choose("length", verifv.Pick(1, 2))
	verifv.Bound("passwords of length 2 (thorough 2..3), six class mixes: every character of every class at every position, and every ordered choice of two classes for the first two positions")
	verifv.RandMode = 1
	p, err := genPassword(length, mins[0], mins[1], mins[2], mins[3], mins[4])
	verifv.Assert(err == nil, "a possible password was refused")
	if err != nil {
		return
	}
	verifv.Assert(verifv.InsecureRand == 0, "a random choice came from an insecure source")
	for pos := 0; pos < length; pos++ {
		for c, k := range mins {
			if k < 0 {
				continue
			}
			for i := 0; i < len(refClasses[c]); i++ {
				ch := refClasses[c][i]
				verifv.Possible("mix"+strconv.Itoa(m)+" len"+strconv.Itoa(length)+" pos"+strconv.Itoa(pos)+" char"+strconv.Itoa(int(ch)), p[pos] == ch)
			}
		}
	}
	if m == 0 {
		for a := range mins {
			for b := range mins {
				verifv.Possible("classes "+strconv.Itoa(a)+strconv.Itoa(b), verifv.And(verifv.InSet(p[0], refClasses[a]), verifv.InSet(p[1], refClasses[b])))
			}
		}
	}
}

// The result is a function of the secure random bytes only, and equal entropy gives equal passwords.
func Harness_G02_fault() {
	verifv.Bound("failure or short read (0..3 bytes, with or without an error) of any random read; lengths 0..4, six class mixes")
	verifv.RandMode = 1
	length := verifv.Choose("length", 5)
	mixes := [][]int{{0, 0, 0, 0, 0}, {1, 0, -1, 0, 0}, {-1, 1, -1, 1, -1}, {-1, -1, 0, -1, 1}, {1, -1, -1, -1, -1}, {0, 2, 1, 0, 1}}
	mins := mixes[verifv.Choose("mix", len(mixes))]
	if !refPossible(length, mins) {
		return
	}
	verifv.RandFault = verifv.Choose("fault", 3)
	if verifv.RandFault > 0 && length > 2 {
		return
	}
	verifv.RandShort = verifv.Choose("short", 4)
	verifv.RandShortNil = verifv.Choose("nilerr", 2) == 1
	var err error
	var p string
	verifv.NoPanic("password generation panicked when randomness failed", func() {
		p, err = genPassword(length, mins[0], mins[1], mins[2], mins[3], mins[4])
	})
	if verifv.RandReads() <= verifv.RandFault {
		verifv.Reach("fault not reached")
		return
	}
	if verifv.RandShortNil && verifv.RandReads() > verifv.RandFault+1 {
		return // the short read was completed by another read
	}
	if verifv.RandShortNil && verifv.RandFaultLen <= verifv.RandShort {
		return // the read was not short
	}
	verifv.Assert(err != nil, "a failing random source did not give an error")
	verifv.Assert(p == "", "a password was returned although the random source failed")
	verifv.Reach("fault reported")
}

// A long password, one choice after another being anything.
func Harness_G02_long() {
	verifv.Bound("passwords of length 45 and (thorough) 130: any two random bytes in a row (at even places) being anything and the others fixed, every class can come at the first, a middle and the last position")
	length := []int{45, 130}[verifv.Choose("length", verifv.Pick(1, 2))]
	verifv.RandMode = 3
	_, err := genPassword(length, 0, 0, 0, 0, 0)
	verifv.Assert(err == nil, "a possible password was refused")
	total := 0
	for _, b := range verifv.RandLog {
		total += len(b)
	}
	verifv.RandSymN = 2
	verifv.RandSymAt = total + 2*verifv.Choose("at", total/2)
	p, err := genPassword(length, 0, 0, 0, 0, 0)
	verifv.Assert(err == nil && len(p) == length, "a possible password was refused")
	if err != nil {
		return
	}
	for _, pos := range []int{0, length / 2, length - 1} {
		for c := range refClasses {
			verifv.Possible("length "+strconv.Itoa(length)+" position "+strconv.Itoa(pos)+" class "+strconv.Itoa(c), verifv.InSet(p[pos], refClasses[c]))
		}
	}
}
