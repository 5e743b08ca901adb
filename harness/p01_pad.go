// package-dir: pkcs7
package pkcs7

import "github.com/aarondl/bpass/verifv"

// refPadded is the independent definition of PKCS#7 padding: the last byte n
// is between 1 and the length of the input and the last n bytes all equal n.
// An n larger than the block size of a cipher cannot be seen by Unpad (which
// is not told the block size).
func refPadded(b []byte) bool {
	ok := false
	if len(b) == 0 {
		return false
	}
	last := b[len(b)-1]
	run := true // the last n bytes are all equal
	for n := 1; n <= 255 && n <= len(b); n++ {
		run = verifv.And(run, b[len(b)-n] == last)
		ok = verifv.Or(ok, verifv.And(run, last == byte(n)))
	}
	return ok
}

func Harness_P01_pad() {
	maxLen := verifv.Pick(34, 70)
	sizes := []int{1, 2, 8, 16, 32, 255}
	size := sizes[verifv.Choose("size", len(sizes))]
	n := verifv.Choose("len", maxLen+1)
	verifv.Bound("pad: lengths 0..34 (thorough 70), block sizes 1,2,8,16,32,255, all contents")
	data := verifv.Bytes("data", n)
	buf := make([]byte, n)
	copy(buf, data)
	var out []byte
	var err error
	verifv.NoPanic("Pad panicked on a usable block size", func() { out = Pad(buf, size) })
	k := size - n%size
	verifv.Assert(len(out) == n+k, "padded length is not the next block multiple")
	verifv.Assert(verifv.EqB(out[:n], data), "Pad changed the content")
	for i := n; i < len(out); i++ {
		verifv.Assert(out[i] == byte(k), "padding byte is not the pad length")
	}
	verifv.Assert(verifv.EqB(buf, data), "Pad changed its input")
	var back []byte
	verifv.NoPanic("Unpad panicked on padded data", func() { back, err = Unpad(out) })
	verifv.Assert(err == nil, "Unpad rejected correctly padded data")
	verifv.Assert(verifv.EqB(back, data), "Unpad did not return the original")
	verifv.Observe("out", out)
	verifv.Reach("padded")
}

func Harness_P01_unpad() {
	maxLen := verifv.Pick(33, 80)
	n := verifv.Choose("len", maxLen+1)
	verifv.Bound("unpad: every byte string of length 0..33 (thorough 80)")
	in := verifv.Bytes("in", n)
	buf := make([]byte, n)
	copy(buf, in)
	var back []byte
	var err error
	verifv.NoPanic("Unpad panicked", func() { back, err = Unpad(buf) })
	valid := refPadded(in)
	if err != nil {
		verifv.Assert(verifv.Not(valid), "Unpad rejected a correctly padded input")
		verifv.Reach("rejected")
		return
	}
	verifv.Assert(valid, "Unpad accepted an incorrectly padded input")
	verifv.Assert(len(back) < n, "Unpad removed nothing")
	verifv.Assert(n-len(back) == int(in[n-1]), "Unpad removed the wrong number of bytes")
	verifv.Assert(verifv.EqB(back, in[:len(back)]), "Unpad changed the content")
	verifv.Observe("back", back)
	verifv.Reach("accepted")
}

// Longer data, its last bytes anything.
func Harness_P01_long() {
	verifv.Bound("pad and unpad of 100, 255, 256, 1000, 4096 and 70000 bytes of which the last 20 are anything (to unpad: a last byte up to 9), block sizes 8, 16, 255")
	verifv.StepLimit(20000000)
	lens := []int{100, 255, 256, 1000, 4096, 70000}
	n := lens[verifv.Choose("len", len(lens))]
	in := append(make([]byte, n-20), verifv.Bytes("tail", 20)...)
	in[0], in[n-21] = 7, 9
	buf := append([]byte(nil), in...)
	if verifv.Choose("unpad", 2) == 0 {
		size := []int{8, 16, 255}[verifv.Choose("size", 3)]
		out := Pad(buf, size)
		k := size - n%size
		verifv.Assert(len(out) == n+k, "padded length is not the next block multiple")
		verifv.Assert(verifv.EqB(out[:n], in), "Pad changed the content")
		for i := n; i < len(out); i++ {
			verifv.Assert(out[i] == byte(k), "padding byte is not the pad length")
		}
		back, err := Unpad(out)
		verifv.Assert(err == nil && verifv.EqB(back, in), "Unpad did not return the original")
		verifv.Reach("padded")
		return
	}
	verifv.Assume(in[n-1] <= 9)
	back, err := Unpad(buf)
	k := int(in[n-1])
	valid := k > 0
	for i := 1; i <= k; i++ {
		valid = verifv.And(valid, in[n-i] == byte(k))
	}
	verifv.Assert(verifv.Iff(valid, err == nil), "Unpad accepts what is no padding or refuses one")
	if err == nil {
		verifv.Assert(verifv.EqB(back, in[:n-k]), "Unpad changed the content")
		verifv.Reach("accepted")
	}
}
