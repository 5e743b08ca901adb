package verifv

import (
	"errors"
	"strings"

	"github.com/pquerna/otp/hotp"
)

// HotpCode stands in for the library's code in the symbolic runs: the same secrets are refused,
// and the code is a function of exactly what goes into it. Natively the library itself runs.
func HotpCode(secret string, counter uint64, opts hotp.ValidateOpts) (string, error) {
	s := []byte(strings.TrimSpace(secret))
	for i, c := range s {
		lower := And(c >= 'a', c <= 'z')
		up := byte(IteI(lower, int(c)-32, int(c)))
		if !(Or(And(up >= 'A', up <= 'Z'), And(up >= '2', up <= '7'))) {
			return "", errors.New("Decoding of secret as base32 failed.")
		}
		s[i] = up
	}
	if n := len(s) % 8; n == 1 || n == 3 || n == 6 {
		return "", errors.New("Decoding of secret as base32 failed.")
	}
	in := append([]byte{byte(opts.Digits), byte(opts.Algorithm)}, be8(int(counter))...)
	h := UF("hotp", 10, append(in, s...))
	n := int(opts.Digits)
	out := make([]byte, n)
	for i := range out {
		out[i] = '0' + h[i]%10
	}
	return string(out), nil
}
