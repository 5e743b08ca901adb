package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Driver explores one harness.
type Driver struct {
	run  *Run
	name string
	dir  string // package dir of the harness
	fn   *ssa.Function
	tier int

	mu       sync.Mutex
	queue    []*workItem
	active   int
	started  time.Time
	finished time.Time
	begun    bool
	done     bool

	forkLimit int
	concLimit int

	branches   atomic.Int64
	assertions atomic.Int64
	paths      atomic.Int64
	pruned     atomic.Int64
	steps      atomic.Int64
	cpuNS      atomic.Int64
	budgetNS   int64
	stop       atomic.Bool
	possible   map[string]bool // labels asked with Possible, and whether each was found possible

	incon    map[string]int
	reach    map[string]int
	expect   map[string]bool
	bounds   map[string]bool
	funcs    map[*ssa.Function]int
	wit      []*witness
	nOK      int
	viol     map[string]*Violation
	maxDepth int
	unexplored int
}

type witness struct {
	d      *Driver
	inputs json.RawMessage
	obs    []string
	result string
}

// Violation is a counterexample candidate.
type Violation struct {
	d       *Driver
	kind    string // assert, panic, hang, never
	label   string
	msg     string
	where   string
	inputs  json.RawMessage
	known   string
	status  string // confirmed, unconfirmed
	detail  string
	tries   int
}

// Run is a whole check run.
type Run struct {
	prop     string
	tier     int
	ld       *Loaded
	drivers  []*Driver
	st       *Stats
	deadline time.Time
	hard     time.Time // paths still running then are abandoned
	mu       sync.Mutex
	cond     *sync.Cond
	stopAll  atomic.Bool
	solver   string
	tmo      int
	known    []KnownFinding
	violQ    chan *Violation
	violWG   sync.WaitGroup
	confirmed []*Violation
}

type KnownFinding struct {
	Property string `json:"property"`
	Match    string `json:"match"` // prefix of the assertion message / panic location
	What     string `json:"what"`
}

func (d *Driver) push(w *workItem) {
	d.mu.Lock()
	d.queue = append(d.queue, w)
	d.mu.Unlock()
	d.run.mu.Lock()
	d.run.cond.Signal()
	d.run.mu.Unlock()
}

func (d *Driver) noteInconclusive(why string) {
	d.mu.Lock()
	d.incon[why]++
	d.mu.Unlock()
}

func (d *Driver) noteBound(s string) {
	d.mu.Lock()
	d.bounds[s] = true
	d.mu.Unlock()
}

func (d *Driver) expectLabel(s string) {
	d.mu.Lock()
	d.expect[s] = true
	d.mu.Unlock()
}

func (d *Driver) mapMode(p *Path) int { return p.mapMode }

func (d *Driver) noteBigAlloc(p *Path, where string) {
	d.noteInconclusive("allocation beyond the modelled size at " + where)
}

func (d *Driver) stepLimitHit(p *Path, where string) {
	d.noteInconclusive("unwinding bound reached in " + where)
	d.violation(p, "hang", "execution does not terminate within the unwinding bound in "+where, p.model)
}

func (d *Driver) violation(p *Path, kind, msg string, m *Model) {
	key := kind + "|" + msg
	d.mu.Lock()
	if _, ok := d.viol[key]; ok {
		v := d.viol[key]
		if v.status != "unconfirmed" || v.tries >= 6 {
			d.mu.Unlock()
			return
		}
		v.tries++
	}
	v := d.viol[key]
	if v == nil {
		v = &Violation{d: d, kind: kind, msg: msg, tries: 1}
		d.viol[key] = v
	}
	v.status = "pending"
	v.inputs = p.inputJSON(m)
	for _, k := range d.run.known {
		if k.Property == d.run.prop && strings.HasPrefix(msg, k.Match) {
			v.known = k.What
		}
	}
	d.mu.Unlock()
	if debug {
		debugf("VIOLATION? %s %s: %s\n inputs %s\n%s", d.name, kind, msg, v.inputs, p.in.stack(p.in.top))
	}
	d.run.violWG.Add(1)
	d.run.violQ <- v
}


// neverCheck reports labels which no execution can reach; only for completed explorations.
func (d *Driver) neverCheck() {
	if d.unexplored > 0 || len(d.incon) > 0 || d.stop.Load() {
		return
	}
	var miss []string
	for l, ok := range d.possible {
		if !ok {
			miss = append(miss, l)
		}
	}
	sort.Strings(miss)
	if len(miss) == 0 {
		return
	}
	js, _ := json.Marshal(map[string]any{"harness": d.name, "tier": d.tier, "values": map[string]string{}, "sample": 60000, "label": miss[0]})
	v := &Violation{d: d, kind: "never", msg: "impossible on every execution: " + miss[0], label: miss[0], tries: 1, status: "pending", inputs: js}
	d.viol["never|"+miss[0]] = v
	d.run.violWG.Add(1)
	d.run.violQ <- v
}

// inputJSON renders the inputs under a model.
func (p *Path) inputJSON(m *Model) json.RawMessage {
	tm := p.in.tm
	old := tm.model
	tm.setModel(m)
	defer tm.setModel(old)
	vals := map[string]any{}
	for _, r := range p.inputs {
		switch r.kind {
		case "int":
			vals[r.label] = fmt.Sprint(int64(tm.eval(r.terms[0])))
		case "choose":
			vals[r.label] = fmt.Sprint(r.val)
		case "bytes":
			b := make([]byte, len(r.terms))
			for i, t := range r.terms {
				b[i] = byte(tm.eval(t))
			}
			vals[r.label] = hex.EncodeToString(b)
		}
	}
	out, _ := json.Marshal(map[string]any{"harness": p.drv.name, "tier": p.drv.tier, "values": vals})
	return out
}

// obsStrings renders observations under the current model; opaque values become "?".
func (p *Path) obsStrings() []string {
	var out []string
	for _, o := range p.obs {
		out = append(out, o.label+"="+p.obsVal(o.val))
	}
	return out
}

func (p *Path) obsVal(v Value) string {
	tm := p.in.tm
	ts := func(ts []*Term) string {
		b := make([]byte, len(ts))
		for i, t := range ts {
			if p.hasUF(t) {
				return "?"
			}
			b[i] = byte(tm.eval(t))
		}
		if strings.Contains(string(b), "‹") {
			return "?"
		}
		return hex.EncodeToString(b)
	}
	switch x := v.(type) {
	case *Term:
		if p.hasUF(x) {
			return "?"
		}
		if x.w == 0 {
			if tm.eval(x) != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprint(sext64(tm.eval(x), x.w))
	case string:
		if strings.Contains(x, "‹") {
			return "?"
		}
		return hex.EncodeToString([]byte(x))
	case SymStr:
		return ts(x)
	case []Value:
		if len(x) == 0 {
			return ""
		}
		if _, ok := x[0].(*Term); ok {
			return ts(p.in.sliceTerms(x))
		}
	}
	return "?"
}

func (p *Path) hasUF(t *Term) bool {
	for _, a := range p.in.tm.atomsOf(t) {
		if n := p.in.tm.atomName(a); strings.HasPrefix(n, "uf ") && !strings.HasPrefix(n, "uf blob:") {
			return true
		}
	}
	return false
}

func (tm *TM) atomName(id int32) string {
	if tm.atomNames == nil {
		tm.atomNames = map[int32]string{}
	}
	if len(tm.atomNames) != len(tm.atomIDs) {
		for k, v := range tm.atomIDs {
			tm.atomNames[v] = k
		}
	}
	return tm.atomNames[id]
}

// next picks work; nil when everything is finished.
func (r *Run) next() (*Driver, *workItem) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopAll.Load() {
			return nil, nil
		}
		open := false
		// least CPU time first among harnesses with work, so that one large harness cannot starve the others
		var best *Driver
		for _, d := range r.drivers {
			d.mu.Lock()
			if d.done {
				d.mu.Unlock()
				continue
			}
			if d.stop.Load() {
				d.unexplored += len(d.queue)
				d.queue = nil
			}
			if len(d.queue) == 0 && d.active == 0 {
				d.done = true
				d.finished = time.Now()
				d.mu.Unlock()
				continue
			}
			open = true
			if len(d.queue) > 0 && (best == nil || d.cpuNS.Load() < best.cpuNS.Load()) {
				best = d
			}
			d.mu.Unlock()
		}
		if !open {
			r.cond.Broadcast()
			return nil, nil
		}
		if best != nil {
			d := best
			d.mu.Lock()
			w := d.queue[len(d.queue)-1]
			d.queue = d.queue[:len(d.queue)-1]
			d.active++
			if !d.begun {
				d.begun = true
				d.started = time.Now()
			}
			d.mu.Unlock()
			return d, w
		}
		r.cond.Wait()
	}
}

func (r *Run) worker(id int) {
	var in *Interp
	defer func() {
		if in != nil {
			in.sol.Close()
		}
	}()
	for {
		d, w := r.next()
		if d == nil {
			return
		}
		if time.Now().After(r.deadline) {
			d.mu.Lock()
			d.unexplored++
			d.mu.Unlock()
			d.stop.Store(true)
		} else {
			if in == nil || in.tm.n > 6_000_000 {
				if in != nil {
					in.flushFuncs(r)
					in.sol.Close()
				}
				in = NewInterp(r.ld, r.st, r.solver, r.tmo)
				in.sol.hard = r.hard
			}
			t0 := time.Now()
			r.runPath(d, in, w)
			d.cpuNS.Add(int64(time.Since(t0)))
			in.flushFuncsTo(d)
			if d.budgetNS > 0 && d.cpuNS.Load() > d.budgetNS {
				d.stop.Store(true)
			}
		}
		d.mu.Lock()
		d.active--
		d.mu.Unlock()
		r.mu.Lock()
		r.cond.Broadcast()
		r.mu.Unlock()
	}
}

func (in *Interp) flushFuncs(r *Run) {}

func (in *Interp) flushFuncsTo(d *Driver) {
	d.mu.Lock()
	for f, n := range in.funcs {
		d.funcs[f] += n
	}
	d.mu.Unlock()
	in.funcs = map[*ssa.Function]int{}
}

func (r *Run) runPath(d *Driver, in *Interp, w *workItem) {
	p := &Path{in: in, drv: d, prefix: w.prefix, pcSet: map[int]bool{}, model: w.model, occ: map[string]int{}, reached: map[string]bool{}, stepLim: 3_000_000}
	in.path = p
	in.tm.setModel(w.model)
	in.local = map[*ssa.Global]*Value{}
	in.initedL = map[*ssa.Package]bool{}
	in.runs = nil
	in.once = map[*Value]bool{}
	in.inInit = 0
	in.top = nil
	result := "ok"
	func() {
		defer func() {
			rec := recover()
			if rec == nil {
				return
			}
			switch e := rec.(type) {
			case pathEnd:
				result = "end:" + e.reason
			case *targetPanic:
				msg := in.panicText(e)
				result = "panic:" + msg
				d.violation(p, "panic", "panic: "+msg+" at "+e.where, p.model)
			case *engineError:
				result = "engine"
				d.noteInconclusive("not encodable: " + firstLine(e.msg))
				debugf("ENGINE ERROR %s: %s\n%s", d.name, e.msg, in.stack(in.top))
			default:
				result = "engine"
				d.noteInconclusive(fmt.Sprintf("engine failure: %v", rec))
				debugf("ENGINE PANIC %s: %v\n%s\n%s", d.name, rec, in.stack(in.top), rdebug.Stack())
			}
		}()
		in.call(nil, d.fn, nil, nil)
	}()
	d.steps.Add(int64(p.steps))
	d.mu.Lock()
	defer d.mu.Unlock()
	if len(p.trace) > d.maxDepth {
		d.maxDepth = len(p.trace)
	}
	switch {
	case strings.HasPrefix(result, "end:assume"), result == "end:assert-false":
		d.pruned.Add(1)
		return
	case strings.HasPrefix(result, "end:"), result == "engine":
		d.paths.Add(1)
		return
	}
	d.paths.Add(1)
	for l := range p.reached {
		d.reach[l]++
	}
	if result == "ok" {
		d.nOK++
		// reservoir of early, and then sparse, witnesses
		if len(d.wit) < 6 || (d.nOK&(d.nOK-1)) == 0 && len(d.wit) < 16 {
			if p.mapMode == 0 && p.holds(p.model) {
				in.tm.setModel(p.model)
				d.wit = append(d.wit, &witness{d: d, inputs: p.inputJSON(p.model), obs: p.obsStrings(), result: result})
			}
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func (in *Interp) panicText(e *targetPanic) string {
	i, ok := e.v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	txt := "?"
	func() {
		defer func() {
			if recover() != nil {
				txt = i.t.String()
			}
		}()
		v := in.fmtVal(i, 'v', "", -1, -1)
		if s, ok := v.(string); ok {
			txt = s
		} else {
			txt = "(symbolic text)"
		}
	}()
	return firstLine(txt)
}

func (r *Run) explore(workers int) {
	r.cond = sync.NewCond(&r.mu)
	for _, d := range r.drivers {
		d.queue = []*workItem{{model: NewModel()}}
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r.worker(i)
		}(i)
	}
	wg.Wait()
	for _, d := range r.drivers {
		d.mu.Lock()
		d.unexplored += len(d.queue)
		if d.finished.IsZero() {
			d.finished = time.Now()
		}
		d.mu.Unlock()
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
