// package-dir: .
package main

import "github.com/aarondl/bpass/verifv"

func g01Call(length int, mins []int) (p string, err error) {
	verifv.NoPanic("password generation panicked", func() {
		p, err = genPassword(length, mins[0], mins[1], mins[2], mins[3], mins[4])
	})
	return p, err
}

// Every 64-bit value of every class argument, small lengths, all random bytes.
func Harness_G01_anyargs() {
	verifv.Bound("lengths -1..2 (thorough 3) with every 64-bit value of each of the five class arguments and every random byte")
	verifv.RandMode = 1
	length := verifv.Choose("length", verifv.Pick(4, 5)) - 1
	mins := make([]int, 5)
	for i := range mins {
		mins[i] = int(verifv.Int64("min"))
	}
	p, err := g01Call(length, mins)
	if refPossible(length, mins) {
		verifv.Assert(err == nil, "a possible password was refused")
		if err == nil {
			assertPolicy(p, length, mins)
			verifv.Observe("p", p)
			verifv.Reach("generated")
		}
		return
	}
	verifv.Assert(err != nil, "an impossible request was not refused")
	verifv.Reach("refused")
}

func Harness_G01_small() {
	verifv.Bound("length 3 (thorough 3..5), 21 class mixes (thorough: every mix of -1..2), every random byte")
	verifv.RandMode = 1
	length := 3 + verifv.Choose("length", verifv.Pick(1, 3))
	mins := make([]int, 5)
	if verifv.Tier() == 0 {
		mixes := [][]int{{0, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {0, 0, 0, 0, 1},
			{1, 1, 1, 0, 0}, {0, 0, 1, 1, 1}, {1, 1, 1, 1, 0}, {2, 0, -1, 1, -1}, {-1, 3, -1, 0, -1}, {-1, -1, -1, -1, 0}, {0, -1, -1, -1, -1},
			{-1, -1, -1, -1, -1}, {-1, 0, 0, 0, 0}, {0, -1, 0, 0, 0}, {0, 0, -1, 0, 0}, {0, 0, 0, -1, 0}, {0, 0, 0, 0, -1}, {4, -1, -1, -1, -1}, {-1, 0, 2, -1, 0}}
		mins = mixes[verifv.Choose("mix", len(mixes))]
	} else {
		for i := range mins {
			mins[i] = verifv.Choose("min", 4) - 1
		}
	}
	p, err := g01Call(length, mins)
	if refPossible(length, mins) {
		verifv.Assert(err == nil, "a possible password was refused")
		if err == nil {
			assertPolicy(p, length, mins)
			verifv.Observe("p", p)
			verifv.Reach("generated")
		}
		return
	}
	verifv.Assert(err != nil, "an impossible request was not refused")
}

// Lengths around the sizes where byte arithmetic wraps.
func Harness_G01_long() {
	lens := []int{32, 127, 128, 129, 255, 256, 257, 300, 511, 512}
	length := lens[verifv.Choose("length", len(lens))]
	verifv.Bound("lengths 32,127,128,129,255,256,257,300,511,512 with three class mixes and one fixed random stream per length (contents) - length, class bounds and no crash")
	verifv.RandMode = 2
	verifv.StepLimit(20000000)
	var mins []int
	switch verifv.Choose("mix", 4) {
	case 0:
		mins = []int{0, 0, 0, 0, 0}
	case 1:
		mins = []int{length, -1, -1, -1, -1}
	case 2:
		mins = []int{-1, -1, 3, length - 5, 0}
	default:
		mins = []int{1, 1, 1, 1, 1}
	}
	p, err := g01Call(length, mins)
	verifv.Assert(err == nil, "a possible password was refused")
	if err != nil {
		return
	}
	assertPolicy(p, length, mins)
	verifv.Reach("generated")
}

func Harness_G01_negative() {
	verifv.Bound("every length below zero and every length of 0..2^62 whose minimums exceed it")
	length := int(verifv.Int64("length"))
	mins := []int{-1, int(verifv.Int64("min")), -1, -1, int(verifv.Int64("min"))}
	verifv.Assume(!refPossible(length, mins))
	_, err := g01Call(length, mins)
	verifv.Assert(err != nil, "an impossible request was not refused")
	verifv.Reach("refused")
}
