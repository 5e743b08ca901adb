package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Stats are shared across workers.
type Stats struct {
	Queries, CacheHits, ModelHits, SatN, UnsatN, UnknownN, Restarts atomic.Int64
	SolverNS                                                       atomic.Int64
	InjLemmas                                                      atomic.Int64
}

type qres struct {
	r     Result
	model *Model // restricted to slice
}

// Solver wraps one z3 process per worker.
type Solver struct {
	tm    *TM
	st    *Stats
	bin   string
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.WriteCloser
	out   *bufio.Reader
	gen   int
	decls map[string]bool
	cache map[string]qres
	tmo   int
	log   io.Writer
	hard  time.Time // no query is started after it, none lasts beyond it
	late  atomic.Bool // the watchdog ended the last query
}

func NewSolver(tm *TM, st *Stats, bin string, timeoutMS int) *Solver {
	return &Solver{tm: tm, st: st, bin: bin, cache: map[string]qres{}, tmo: timeoutMS}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	var sink io.Writer = in
	if d := os.Getenv("SYMGO_SMTLOG"); d != "" {
		if f, err := os.CreateTemp(d, "q*.smt2"); err == nil {
			sink = io.MultiWriter(in, f)
		}
	}
	s.in = bufio.NewWriterSize(sink, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.decls = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.tmo)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case opConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case opVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) emit(t *Term) {
	if t.op == opConst || t.emitted == s.gen {
		return
	}
	// iterative DFS to avoid deep recursion problems on long chains
	for _, a := range t.args {
		s.emit(a)
	}
	t.emitted = s.gen
	w := s.in
	switch t.op {
	case opVar:
		fmt.Fprintf(w, "(declare-const |%s| %s)\n", t.name, sortOf(t.w))
		return
	case opUF:
		key := t.name
		if !s.decls[key] {
			s.decls[key] = true
			fmt.Fprintf(w, "(declare-fun |%s| (", key)
			for _, a := range t.args {
				w.WriteString(sortOf(a.w) + " ")
			}
			fmt.Fprintf(w, ") %s)\n", sortOf(t.w))
		}
		if len(t.args) == 0 {
			fmt.Fprintf(w, "(define-fun t%d () %s |%s|)\n", t.id, sortOf(t.w), key)
			return
		}
		fmt.Fprintf(w, "(define-fun t%d () %s (|%s|", t.id, sortOf(t.w), key)
		for _, a := range t.args {
			w.WriteByte(' ')
			w.WriteString(s.ref(a))
		}
		w.WriteString("))\n")
		return
	}
	fmt.Fprintf(w, "(define-fun t%d () %s (", t.id, sortOf(t.w))
	switch t.op {
	case opExtract:
		fmt.Fprintf(w, "(_ extract %d %d)", int(t.val)+t.w-1, t.val)
	case opZExt:
		fmt.Fprintf(w, "(_ zero_extend %d)", t.w-t.args[0].w)
	case opSExt:
		fmt.Fprintf(w, "(_ sign_extend %d)", t.w-t.args[0].w)
	default:
		w.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		w.WriteByte(' ')
		w.WriteString(s.ref(a))
	}
	w.WriteString("))\n")
}

func collect(ts []*Term) (vars, ufs []*Term) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == opConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		switch t.op {
		case opVar:
			vars = append(vars, t)
		case opUF:
			ufs = append(ufs, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

func keyOf(ts []*Term) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.id
	}
	sort.Ints(ids)
	b := make([]byte, 0, len(ids)*3)
	for _, i := range ids {
		b = binary.AppendUvarint(b, uint64(i))
	}
	return string(b)
}

// Check decides the conjunction of ts (already sliced). On Sat the model covers the variables of ts.
func (s *Solver) Check(ts []*Term) (Result, *Model) {
	if len(ts) == 0 {
		return Sat, NewModel()
	}
	k := keyOf(ts)
	if r, ok := s.cache[k]; ok {
		s.st.CacheHits.Add(1)
		return r.r, r.model
	}
	r, m := s.check(ts)
	if r != Unknown {
		s.cache[k] = qres{r, m}
	}
	return r, m
}

func (s *Solver) check(ts []*Term) (Result, *Model) {
	vars, ufs := collect(ts)
	var lemmas []string
	for iter := 0; iter < 200; iter++ {
		r, m, ok := s.query(ts, lemmas, vars, ufs)
		if !ok {
			// solver died or errored; restart once, unless it took too long
			s.Close()
			s.st.Restarts.Add(1)
			if !s.late.Load() {
				r, m, ok = s.query(ts, lemmas, vars, ufs)
			}
			if !ok {
				s.Close()
				s.st.UnknownN.Add(1)
				return Unknown, nil
			}
		}
		switch r {
		case Unsat:
			s.st.UnsatN.Add(1)
			return r, nil
		case Unknown:
			s.st.UnknownN.Add(1)
			return r, nil
		}
		// injectivity refinement
		nl := s.injViolations(ufs, m)
		if len(nl) == 0 {
			s.st.SatN.Add(1)
			return Sat, m
		}
		s.st.InjLemmas.Add(int64(len(nl)))
		lemmas = append(lemmas, nl...)
	}
	s.st.UnknownN.Add(1)
	return Unknown, nil
}

func (s *Solver) injViolations(ufs []*Term, m *Model) []string {
	var out []string
	old := s.tm.model
	s.tm.setModel(m)
	defer s.tm.setModel(old)
	byVal := map[string][]*Term{}
	for _, u := range ufs {
		inf := s.tm.uf[u.name]
		if inf == nil || !inf.injective {
			continue
		}
		v := s.tm.evalUFv(u)
		fam := u.name
		if i := strings.IndexByte(fam, '@'); i >= 0 {
			fam = fam[:i]
		}
		key := fam + "|" + v
		for _, o := range byVal[key] {
			if o == u {
				continue
			}
			if o.name != u.name {
				if o.w == u.w {
					out = append(out, fmt.Sprintf("(not (= %s %s))", s.ref(o), s.ref(u)))
				}
				continue
			}
			diff := false
			for i := range o.args {
				if s.tm.evalW(o.args[i]) != s.tm.evalW(u.args[i]) {
					diff = true
				}
			}
			if diff {
				l := fmt.Sprintf("(=> (= %s %s) (and", s.ref(o), s.ref(u))
				for i := range o.args {
					l += fmt.Sprintf(" (= %s %s)", s.ref(o.args[i]), s.ref(u.args[i]))
				}
				out = append(out, l+"))")
			}
		}
		byVal[key] = append(byVal[key], u)
	}
	return out
}

func (tm *TM) evalUFv(t *Term) string {
	if t.w > 64 {
		return tm.evalW(t)
	}
	return tm.evalW(t)
}

func (s *Solver) query(ts []*Term, lemmas []string, vars, ufs []*Term) (Result, *Model, bool) {
	t0 := time.Now()
	defer func() { s.st.SolverNS.Add(int64(time.Since(t0))) }()
	s.st.Queries.Add(1)
	s.late.Store(false)
	left := time.Duration(s.tmo) * time.Millisecond * 3 / 2
	if !s.hard.IsZero() {
		if u := time.Until(s.hard); u < left {
			left = u
		}
		if left <= 0 {
			s.late.Store(true)
			return Unknown, nil, false
		}
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil, false
		}
	}
	proc := s.cmd.Process
	dog := time.AfterFunc(left, func() { s.late.Store(true); proc.Kill() })
	defer dog.Stop()
	for _, t := range ts {
		s.emit(t)
	}
	w := s.in
	w.WriteString("(push 1)\n")
	for _, t := range ts {
		fmt.Fprintf(w, "(assert %s)\n", s.ref(t))
	}
	for _, l := range lemmas {
		fmt.Fprintf(w, "(assert %s)\n", l)
	}
	w.WriteString("(check-sat)\n")
	if err := w.Flush(); err != nil {
		return Unknown, nil, false
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return Unknown, nil, false
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		w.WriteString("(pop 1)\n")
		return Unsat, nil, true
	case "unknown", "timeout":
		w.WriteString("(pop 1)\n")
		return Unknown, nil, true
	case "sat":
	default:
		debugf("solver said %q", line)
		return Unknown, nil, false
	}
	m := NewModel()
	all := append(append([]*Term{}, vars...), ufs...)
	if len(all) > 0 {
		w.WriteString("(get-value (")
		for _, v := range all {
			w.WriteString(s.ref(v))
			w.WriteByte(' ')
		}
		w.WriteString("))\n")
	}
	w.WriteString("(pop 1)\n")
	if err := w.Flush(); err != nil {
		return Unknown, nil, false
	}
	if len(all) > 0 {
		vals, err := s.readValues(len(all))
		if err != nil {
			debugf("get-value: %v", err)
			return Unknown, nil, false
		}
		for i, v := range vars {
			u, _ := parseBV(vals[i])
			m.vars[v.name] = u
		}
		old := s.tm.model
		sort.Slice(ufs, func(i, j int) bool { return ufs[i].id < ufs[j].id })
		// vals were requested in the pre-sort order; map by term
		byTerm := map[*Term]string{}
		for i, v := range all[len(vars):] {
			byTerm[v] = vals[len(vars)+i]
		}
		for _, u := range ufs {
			s.tm.setModel(m)
			_, bs := parseBV(byTerm[u])
			m.ufs[s.tm.ufKey(u)] = bs
		}
		s.tm.setModel(old)
	}
	return Sat, m, true
}

// readValues reads one get-value response with n pairs.
func (s *Solver) readValues(n int) ([]string, error) {
	depth := 0
	var sb strings.Builder
	started := false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteByte(c)
		if started && depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	// swallow rest of line
	s.out.ReadString('\n')
	var vals []string
	i := 0
	// skip outer (
	for txt[i] != '(' {
		i++
	}
	i++
	for len(vals) < n {
		for i < len(txt) && txt[i] != '(' {
			i++
		}
		if i >= len(txt) {
			return nil, fmt.Errorf("short values")
		}
		i++
		// name
		if txt[i] == '|' {
			i++
			for txt[i] != '|' {
				i++
			}
			i++
		} else {
			for txt[i] != ' ' && txt[i] != '\n' {
				i++
			}
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		st := i
		if txt[i] == '(' {
			for txt[i] != ')' {
				i++
			}
			i++
		} else {
			for txt[i] != ')' {
				i++
			}
		}
		vals = append(vals, strings.TrimSpace(txt[st:i]))
		for txt[i] != ')' {
			i++
		}
		i++
	}
	return vals, nil
}

// parseBV returns the value both as uint64 (low bits) and as big-endian bytes.
func parseBV(v string) (uint64, string) {
	switch {
	case v == "true":
		return 1, "\x01"
	case v == "false":
		return 0, "\x00"
	case strings.HasPrefix(v, "#x"):
		h := v[2:]
		if len(h)%2 == 1 {
			h = "0" + h
		}
		b := make([]byte, len(h)/2)
		for i := range b {
			x, _ := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
			b[i] = byte(x)
		}
		var u uint64
		for _, c := range b {
			u = u<<8 | uint64(c)
		}
		return u, string(b)
	case strings.HasPrefix(v, "#b"):
		bs := v[2:]
		for len(bs)%8 != 0 {
			bs = "0" + bs
		}
		b := make([]byte, len(bs)/8)
		for i := range b {
			x, _ := strconv.ParseUint(bs[8*i:8*i+8], 2, 8)
			b[i] = byte(x)
		}
		var u uint64
		for _, c := range b {
			u = u<<8 | uint64(c)
		}
		return u, string(b)
	}
	debugf("parseBV: %q", v)
	return 0, ""
}
