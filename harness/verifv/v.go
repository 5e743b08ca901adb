// Package verifv is the environment the harnesses run against. The same source is interpreted symbolically by the
// engine (which implements the primitives of this file itself) and compiled natively to replay counterexamples.
package verifv

import (
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
)

// ---- primitives (the engine replaces the bodies)

type replayIn struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Values  map[string]string `json:"values"`
	Sample  int               `json:"sample"`
}

type replayOut struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
	Output string   `json:"output"`
	Tried  map[string]int `json:"tried"`
}

var (
	rin  replayIn
	rout replayOut
	occ  map[string]int
)

type assertFail struct{ msg string }
type assumeFail struct{}

func next(label string) string {
	n := occ[label]
	occ[label] = n + 1
	return rin.Values[label+"#"+strconv.Itoa(n)]
}

func nextInt(label string) int64 {
	if rin.Sample > 0 {
		return int64(rng())
	}
	v, _ := strconv.ParseInt(next(label), 10, 64)
	return v
}

func nextBytes(label string, n int) []byte {
	if rin.Sample > 0 {
		out := make([]byte, n)
		for i := range out {
			out[i] = byte(rng())
		}
		return out
	}
	b, _ := hex.DecodeString(next(label))
	out := make([]byte, n)
	copy(out, b)
	return out
}

// Symbolic tells whether the engine is executing.
func Symbolic() bool { return false }

// Tier is 0 for quick runs, 1 for thorough runs.
func Tier() int { return rin.Tier }

// Pick chooses a bound by tier.
func Pick(quick, thorough int) int {
	if Tier() == 0 {
		return quick
	}
	return thorough
}

func Byte(label string) byte               { return byte(nextInt(label)) }
func Bool(label string) bool               { return nextInt(label)&1 != 0 }
func Int64(label string) int64             { return nextInt(label) }

func Int(label string, lo, hi int) int {
	if rin.Sample > 0 {
		return lo + int(rng()%uint64(hi-lo+1))
	}
	return int(nextInt(label))
}

func Choose(label string, n int) int {
	if rin.Sample > 0 {
		return int(rng() % uint64(n))
	}
	return int(nextInt(label))
}

// Possible asks whether cond can hold on some execution; over the whole exploration every label asked for must be
// possible at least once.
func Possible(label string, cond bool) {
	if rout.Tried == nil {
		rout.Tried = map[string]int{}
	}
	rout.Tried[label]++
	if cond {
		Reach(label)
	}
}

var rngState uint64 = 88172645463325252

func rng() uint64 {
	rngState ^= rngState << 13
	rngState ^= rngState >> 7
	rngState ^= rngState << 17
	return rngState >> 11
}

func Bytes(label string, n int) []byte     { return nextBytes(label, n) }
func String(label string, n int) string    { return string(nextBytes(label, n)) }
func Blob(label string, n int) []byte      { return nextBytes(label, n) }
func Expect(labels ...string)              {}
func Bound(s string)                       {}
func MapOrder(mode int)                    {}

// ConcreteCrypto computes ciphers and hashes of known bytes under known keys
// instead of leaving them uninterpreted.
func ConcreteCrypto() {}
func StepLimit(n int)                      {}
func Debug(v ...any)                       {}
func BranchIs(c bool) int                  { return -1 }
func Concrete(s string) string             { return s }

func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(assertFail{msg})
	}
}

func Reach(label string) { rout.Reach = append(rout.Reach, label) }

func Observe(label string, vals ...any) {
	for _, v := range vals {
		s := "?"
		switch x := v.(type) {
		case string:
			s = hex.EncodeToString([]byte(x))
		case []byte:
			s = hex.EncodeToString(x)
		case int:
			s = strconv.Itoa(x)
		case int64:
			s = strconv.FormatInt(x, 10)
		case byte:
			s = strconv.Itoa(int(int8(x)))
		case bool:
			s = strconv.FormatBool(x)
		}
		rout.Obs = append(rout.Obs, label+"="+s)
	}
}

// UF is an injective uninterpreted function symbolically; natively a hash expansion.
func UF(name string, outLen int, args ...[]byte) []byte {
	var out []byte
	for i := 0; len(out) < outLen; i++ {
		h := sha512.New()
		fmt.Fprintf(h, "%s/%d/%d", name, outLen, i)
		for _, a := range args {
			fmt.Fprintf(h, "|%d|", len(a))
			h.Write(a)
		}
		out = h.Sum(out)
	}
	return out[:outLen]
}

// BlockE and BlockD are only used symbolically.
func BlockE(alg string, key, blk []byte) []byte { panic("native BlockE") }
func BlockD(alg string, key, blk []byte) []byte { panic("native BlockD") }

// Non-forking connectives.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Not(c bool) bool          { return !c }
func Implies(a, b bool) bool   { return !a || b }
func Iff(a, b bool) bool       { return a == b }
func EqS(a, b string) bool     { return a == b }
func EqB(a, b []byte) bool     { return string(a) == string(b) }
func EqI(a, b int) bool        { return a == b }
func LtI(a, b int) bool        { return a < b }
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func InSet(b byte, set string) bool { return strings.IndexByte(set, b) >= 0 }

// ---- derived helpers (ordinary code in both modes)

// ExitPanic is raised by os.Exit.
type ExitPanic struct{ Code int }

// CrashPanic is raised at a crash point.
type CrashPanic struct{}

// Catch runs f and tells how it ended: "" normally, "exit", "crash" or "panic: ...".
func Catch(f func()) (end string) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case assertFail, assumeFail:
			panic(x)
		case ExitPanic:
			end = "exit" + strconv.Itoa(x.Code)
		case CrashPanic:
			end = "crash"
		case error:
			end = "panic: " + x.Error()
		case string:
			end = "panic: " + x
		default:
			end = "panic: other"
		}
	}()
	f()
	return ""
}

// NoPanic runs f; a panic of the code under test is a violation with the given message.
func NoPanic(msg string, f func()) {
	end := Catch(f)
	if strings.HasPrefix(end, "panic") {
		Assert(false, msg)
	}
}

var output string

// Emit receives console output.
func Emit(s string) { output += s }

// Output is the console output so far.
func Output() string { return output }

// ClearOutput drops captured console output.
func ClearOutput() { output = "" }

// RunReplay executes one recorded input natively.
func RunReplay(hs map[string]func()) {
	data, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Println("no replay input:", err)
		os.Exit(3)
	}
	var ins []replayIn
	if err := json.Unmarshal(data, &ins); err != nil {
		fmt.Println("bad replay input:", err)
		os.Exit(3)
	}
	var outs []replayOut
	for _, one := range ins {
		if one.Sample > 0 {
			all := replayOut{Status: "ok", Tried: map[string]int{}}
			seen := map[string]bool{}
			for i := 0; i < one.Sample; i++ {
				o := runOne(hs, one)
				for _, l := range o.Reach {
					if !seen[l] {
						seen[l] = true
						all.Reach = append(all.Reach, l)
					}
				}
				for l, n := range o.Tried {
					all.Tried[l] += n
				}
			}
			outs = append(outs, all)
			continue
		}
		outs = append(outs, runOne(hs, one))
	}
	js, _ := json.Marshal(outs)
	os.WriteFile(os.Getenv("VERIF_OUT"), js, 0644)
}

func runOne(hs map[string]func(), one replayIn) (out replayOut) {
	rin = one
	rout = replayOut{Status: "ok"}
	occ = map[string]int{}
	output = ""
	ResetEnv()
	f := hs[rin.Harness]
	if f == nil {
		return replayOut{Status: "missing"}
	}
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case assertFail:
				rout.Status, rout.Msg = "assert", x.msg
			case assumeFail:
				rout.Status = "assume"
			case ExitPanic:
				rout.Status, rout.Msg = "panic", "os.Exit"
			default:
				rout.Status, rout.Msg = "panic", fmt.Sprint(r)
			}
		}()
		f()
	}()
	rout.Output = output
	return rout
}
