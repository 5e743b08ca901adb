package verifv

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"hash"
	"io"
	"strings"
	"time"

	"github.com/enceve/crypto/camellia"
	"github.com/gofrs/uuid"
	"golang.org/x/crypto/cast5"
)

// ErrInjected is the injected failure.
var ErrInjected = errors.New("injected failure")

// ResetEnv puts the whole modelled environment in its initial state.
func ResetEnv() {
	clock, clockSym, clockN = 1600000000000000000, false, 0
	RandFault, RandLog, RandMode, randN, randAt = -1, nil, 0, 0, 0
	RandShort, RandShortNil, InsecureRand = 0, false, 0
	uuidN, UUIDFault = 0, false
	Concealed = nil
	resetFS()
	resetProc()
	resetUI()
}

func init() { ResetEnv() }

// ---- time

var (
	clock    int64
	clockSym bool
	clockN   int
)

// ClockSymbolic makes each reading advance by an arbitrary positive amount.
func ClockSymbolic() { clockSym = true }

// SetClock sets the current time in unix nanoseconds.
func SetClock(ns int64) { clock = ns }

// Clock returns the last reading.
func Clock() int64 { return clock }

func Time_Now() time.Time {
	if clockSym {
		clock += int64(Int("clock", 1, 1000000000))
	} else {
		clock += 1000
	}
	return time.Unix(0, clock)
}

func Time_Since(t time.Time) time.Duration { return Time_Now().Sub(t) }
func Time_Sleep(d time.Duration)           {}

// ---- console

func Fmt_Print(a ...any) (int, error)                 { s := fmt.Sprint(a...); Emit(s); return len(s), nil }
func Fmt_Println(a ...any) (int, error)               { s := fmt.Sprintln(a...); Emit(s); return len(s), nil }
func Fmt_Printf(f string, a ...any) (int, error)      { s := fmt.Sprintf(f, a...); Emit(s); return len(s), nil }

// ---- colours (plain text)

type Color_Color int
type Color_Colors []Color_Color

var Color_Disable bool
var Color_Writer io.Writer

const (
	Color_FgBlack Color_Color = iota + 30
	Color_FgRed
	Color_FgGreen
	Color_FgYellow
	Color_FgBlue
	Color_FgMagenta
	Color_FgCyan
	Color_FgWhite
)
const (
	Color_BgBlack Color_Color = iota + 40
	Color_BgRed
	Color_BgGreen
	Color_BgYellow
	Color_BgBlue
	Color_BgMagenta
	Color_BgCyan
	Color_BgWhite
)
const (
	Color_FgBrightBlack Color_Color = iota + 90
	Color_FgBrightRed
	Color_FgBrightGreen
	Color_FgBrightYellow
	Color_FgBrightBlue
	Color_FgBrightMagenta
	Color_FgBrightCyan
	Color_FgBrightWhite
)
const (
	Color_BgBrightBlack Color_Color = iota + 100
	Color_BgBrightRed
	Color_BgBrightGreen
	Color_BgBrightYellow
	Color_BgBrightBlue
	Color_BgBrightMagenta
	Color_BgBrightCyan
	Color_BgBrightWhite
)

// Concealed is what was made unreadable: printed in the colour of its background.
var Concealed []string

func (c Color_Colors) hides(s string) string {
	for _, fg := range c {
		for _, bg := range c {
			if fg >= 30 && fg < 38 && bg == fg+10 || fg >= 90 && fg < 98 && bg == fg+10 {
				Concealed = append(Concealed, s)
				return s
			}
		}
	}
	return s
}

func Color_Mix(c ...Color_Color) Color_Colors { return c }
func Color_Clean(s string) string             { return s }

func (c Color_Color) Println(a ...any) error                            { Emit(fmt.Sprintln(a...)); return nil }
func (c Color_Color) Print(a ...any) error                              { Emit(fmt.Sprint(a...)); return nil }
func (c Color_Color) Printf(f string, a ...any) error                   { Emit(fmt.Sprintf(f, a...)); return nil }
func (c Color_Color) Fprintln(w io.Writer, a ...any) error              { _, e := io.WriteString(w, fmt.Sprintln(a...)); return e }
func (c Color_Color) Fprint(w io.Writer, a ...any) error                { _, e := io.WriteString(w, fmt.Sprint(a...)); return e }
func (c Color_Color) Fprintf(w io.Writer, f string, a ...any) error     { _, e := io.WriteString(w, fmt.Sprintf(f, a...)); return e }
func (c Color_Color) Sprintln(a ...any) string                          { return fmt.Sprintln(a...) }
func (c Color_Color) Sprint(a ...any) string                            { return fmt.Sprint(a...) }
func (c Color_Color) Sprintf(f string, a ...any) string                 { return fmt.Sprintf(f, a...) }
func (c Color_Colors) Println(a ...any) error                           { Emit(c.hides(fmt.Sprintln(a...))); return nil }
func (c Color_Colors) Print(a ...any) error                             { Emit(c.hides(fmt.Sprint(a...))); return nil }
func (c Color_Colors) Printf(f string, a ...any) error                  { Emit(c.hides(fmt.Sprintf(f, a...))); return nil }
func (c Color_Colors) Fprintln(w io.Writer, a ...any) error             { _, e := io.WriteString(w, c.hides(fmt.Sprintln(a...))); return e }
func (c Color_Colors) Fprint(w io.Writer, a ...any) error               { _, e := io.WriteString(w, c.hides(fmt.Sprint(a...))); return e }
func (c Color_Colors) Fprintf(w io.Writer, f string, a ...any) error    { _, e := io.WriteString(w, c.hides(fmt.Sprintf(f, a...))); return e }
func (c Color_Colors) Sprintln(a ...any) string                         { return c.hides(fmt.Sprintln(a...)) }
func (c Color_Colors) Sprint(a ...any) string                           { return c.hides(fmt.Sprint(a...)) }
func (c Color_Colors) Sprintf(f string, a ...any) string                { return c.hides(fmt.Sprintf(f, a...)) }

// ---- randomness

var (
	// RandFault makes the n-th read (counting from 0) fail; -1 never.
	RandFault int
	// RandShort makes the failing read return some bytes first.
	RandShort int
	// RandShortNil makes the failing read report no error (a short read).
	RandShortNil bool
	// RandFaultLen is how much the failing read asked for.
	RandFaultLen int
	// RandLog is everything read from the random source.
	RandLog [][]byte
	// RandMode 0 gives opaque blocks, 1 gives one symbolic variable per byte,
	// 2 a fixed stream, 3 a fixed stream in which the bytes from RandSymAt on,
	// RandSymN of them, are symbolic variables.
	RandMode            int
	RandSymAt, RandSymN int
	randN, randAt       int
)

// RandReads is the number of reads so far.
func RandReads() int { return randN }

func Rand_Read(b []byte) (int, error) {
	n := randN
	randN++
	if n == RandFault {
		k := RandShort
		RandFaultLen = len(b)
		if k > len(b) {
			k = len(b)
		}
		if k > 0 {
			copy(b, Blob("randshort", k))
		}
		if RandShortNil {
			return k, nil
		}
		return k, ErrInjected
	}
	var data []byte
	if RandMode >= 2 {
		data = make([]byte, len(b))
		for i := range data {
			x := uint32(i+1)*2654435761 + uint32(n)*40503
			data[i] = byte(x >> 13)
			if RandMode == 3 && randAt+i >= RandSymAt && randAt+i < RandSymAt+RandSymN {
				data[i] = Byte("randb")
			}
		}
		randAt += len(b)
	} else if RandMode == 1 {
		data = Bytes("randb", len(b))
	} else {
		data = Blob("rand", len(b))
	}
	copy(b, data)
	RandLog = append(RandLog, data)
	return len(b), nil
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) { return Rand_Read(b) }

var Rand_Reader io.Reader = randReader{}

// ---- math/rand: never an acceptable source of secrets

// InsecureRand counts uses of math/rand.
var InsecureRand int

func weak(n int64) int64 { InsecureRand++; return int64(Int("weak", 0, int(n-1))) }

func Mrand_Seed(s int64)          {}
func Mrand_Int() int              { return int(weak(1 << 62)) }
func Mrand_Intn(n int) int        { return int(weak(int64(n))) }
func Mrand_IntN(n int) int        { return int(weak(int64(n))) }
func Mrand_Int63() int64          { return weak(1 << 62) }
func Mrand_Int63n(n int64) int64  { return weak(n) }
func Mrand_Int31() int32          { return int32(weak(1 << 31)) }
func Mrand_Int31n(n int32) int32  { return int32(weak(int64(n))) }
func Mrand_Uint32() uint32        { return uint32(weak(1 << 32)) }
func Mrand_Uint64() uint64        { return uint64(weak(1 << 62)) }
func Mrand_Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Mrand_Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Mrand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(weak(int64(i+1))))
	}
}
func Mrand_Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(weak(256))
	}
	return len(b), nil
}

type Mrand_Source interface{ Int63() int64 }
type Mrand_Rand struct{}
type mrandSource struct{}

func (mrandSource) Int63() int64                           { return Mrand_Int63() }
func (mrandSource) Seed(int64)                             {}
func Mrand_NewSource(seed int64) Mrand_Source              { return mrandSource{} }
func Mrand_New(s Mrand_Source) *Mrand_Rand                 { return &Mrand_Rand{} }
func (r *Mrand_Rand) Seed(int64)                           {}
func (r *Mrand_Rand) Int() int                             { return Mrand_Int() }
func (r *Mrand_Rand) Intn(n int) int                       { return Mrand_Intn(n) }
func (r *Mrand_Rand) Int63() int64                         { return Mrand_Int63() }
func (r *Mrand_Rand) Int63n(n int64) int64                 { return Mrand_Int63n(n) }
func (r *Mrand_Rand) Int31n(n int32) int32                 { return Mrand_Int31n(n) }
func (r *Mrand_Rand) Uint32() uint32                       { return Mrand_Uint32() }
func (r *Mrand_Rand) Perm(n int) []int                     { return Mrand_Perm(n) }
func (r *Mrand_Rand) Shuffle(n int, swap func(i, j int))   { Mrand_Shuffle(n, swap) }
func (r *Mrand_Rand) Read(b []byte) (int, error)           { return Mrand_Read(b) }

// ---- uuid

var (
	uuidN     int
	UUIDFault bool
)

func Uuid_NewV4() (uuid.UUID, error) {
	if UUIDFault {
		return uuid.UUID{}, ErrInjected
	}
	return UUIDn(nextUUID()), nil
}

func nextUUID() int { uuidN++; return uuidN }

// SkipUUIDs moves the generator so that replicas do not share identifiers.
func SkipUUIDs(n int) { uuidN += n }

// UUIDn is the n-th identifier the generator gives.
func UUIDn(n int) uuid.UUID {
	var u uuid.UUID
	u[0], u[1] = byte(n), byte(n>>8)
	u[6], u[8], u[15] = 0x40, 0x80, 0xff
	return u
}

// ---- ciphers: uninterpreted permutations symbolically

type symBlock struct {
	alg  string
	key  []byte
	size int
}

func (b *symBlock) BlockSize() int { return b.size }
func (b *symBlock) Encrypt(dst, src []byte) {
	if len(src) < b.size || len(dst) < b.size {
		panic("cipher: input not full block")
	}
	copy(dst, BlockE(b.alg, b.key, src[:b.size]))
}
func (b *symBlock) Decrypt(dst, src []byte) {
	if len(src) < b.size || len(dst) < b.size {
		panic("cipher: input not full block")
	}
	copy(dst, BlockD(b.alg, b.key, src[:b.size]))
}

func symCipher(alg string, key []byte, size int) cipher.Block {
	k := make([]byte, len(key))
	copy(k, key)
	return &symBlock{alg, k, size}
}

func Aes_NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, aes.KeySizeError(len(key))
	}
	if Symbolic() {
		return symCipher("aes", key, 16), nil
	}
	return aes.NewCipher(key)
}

func Camellia_NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, errors.New("camellia: invalid key size")
	}
	if Symbolic() {
		return symCipher("camellia", key, 16), nil
	}
	return camellia.NewCipher(key)
}

func Cast5_NewCipher(key []byte) (cipher.Block, error) {
	if len(key) != cast5.KeySize {
		return nil, errors.New("CAST5: keys must be 16 bytes")
	}
	if Symbolic() {
		return symCipher("cast5", key, 8), nil
	}
	return cast5.NewCipher(key)
}

// ---- hashes: uninterpreted injective functions symbolically

type symHash struct {
	name string
	size int
	buf  []byte
}

func (h *symHash) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *symHash) Sum(b []byte) []byte         { return append(b, UF(h.name, h.size, h.buf)...) }
func (h *symHash) Reset()                      { h.buf = nil }
func (h *symHash) Size() int                   { return h.size }
func (h *symHash) BlockSize() int              { return 128 }

func Sha512_New() hash.Hash {
	if Symbolic() {
		return &symHash{name: "sha512", size: 64}
	}
	return sha512.New()
}

func Sha256_New() hash.Hash {
	if Symbolic() {
		return &symHash{name: "sha256", size: 32}
	}
	return sha256.New()
}

func Sha512_Sum512(b []byte) (out [64]byte) {
	if Symbolic() {
		copy(out[:], UF("sha512", 64, b))
		return out
	}
	return sha512.Sum512(b)
}

func Sha256_Sum256(b []byte) (out [32]byte) {
	if Symbolic() {
		copy(out[:], UF("sha256", 32, b))
		return out
	}
	return sha256.Sum256(b)
}

// ---- key derivation

// ScryptCalls counts derivations.
var ScryptCalls int

func be8(n int) []byte {
	b := make([]byte, 8)
	for i := 0; i < 8; i++ {
		b[7-i] = byte(n)
		n >>= 8
	}
	return b
}

func Scrypt_Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	if N <= 1 || N&(N-1) != 0 {
		return nil, errors.New("scrypt: N must be > 1 and a power of 2")
	}
	ScryptCalls++
	return UF("scrypt", keyLen, password, salt, be8(N), be8(r), be8(p)), nil
}

// ---- clipboard, editor, pinentry

var (
	// Clip is everything written to the clipboard.
	Clip []string
	// ClipFault makes clipboard writes fail.
	ClipFault bool
)

func Clipboard_WriteAll(s string) error {
	if ClipFault {
		return ErrInjected
	}
	Clip = append(Clip, s)
	return nil
}

// PinHook replaces pinentry.Password in package main; nil means pinentry is not installed.
var PinHook func(prompt string) (string, error)

// PinNotFound must be set to pinentry.ErrNotFound by harnesses that use PinHook == nil.
var PinNotFound error

func Pinentry_Password(prompt string) (string, error) {
	if PinHook == nil {
		return "", PinNotFound
	}
	return PinHook(prompt)
}

func resetProc() {
	Clip, ClipFault, PinHook, PinNotFound = nil, false, nil, nil
	Started, StartFault, FSOpenHook, Removed = nil, false, nil, nil
	ScryptCalls = 0
	Env, EnvAll = map[string]string{}, ""
	ExecHook, StartHook = nil, nil
	Programs, PipeIn, PipeOut = nil, nil, nil
	SSHDial, SSHIn, SSHOut, SSHStart, SSHWait, SSHClose = nil, nil, nil, nil, nil, nil
	SSHSession, SSHPipes, SSHCmds, SSHClosed = nil, nil, nil, 0
	ScpRecv, ScpSend = nil, nil
	resetKeys()
	Stdin = strings.NewReader("")
}

// ---- strings.Replacer, byte by byte

type Strings_Replacer struct {
	pairs []string
	real  *strings.Replacer
}

func Strings_NewReplacer(oldnew ...string) *Strings_Replacer {
	if len(oldnew)%2 == 1 {
		panic("strings.NewReplacer: odd argument count")
	}
	return &Strings_Replacer{oldnew, strings.NewReplacer(oldnew...)}
}

func (r *Strings_Replacer) Replace(s string) string {
	if !Symbolic() {
		return r.real.Replace(s)
	}
	var out []byte
next:
	for i := 0; i <= len(s); {
		for k := 0; k < len(r.pairs); k += 2 {
			o := r.pairs[k]
			if i+len(o) <= len(s) && s[i:i+len(o)] == o {
				out = append(out, r.pairs[k+1]...)
				if len(o) == 0 {
					break
				}
				i += len(o)
				continue next
			}
		}
		if i < len(s) {
			out = append(out, s[i])
		}
		i++
	}
	return string(out)
}

func (r *Strings_Replacer) WriteString(w io.Writer, s string) (int, error) {
	return io.WriteString(w, r.Replace(s))
}
