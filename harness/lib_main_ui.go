// package-dir: .
package main

import (
	"io"
	"strings"
	"time"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/pinentry"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

const testFile = "/home/u/.bpass"

// resetMain puts the program's own variables back to how it starts.
func resetMain() {
	flagFile, flagTime = testFile, ""
	flagHelp, flagNoColor, flagNoClearClip, flagNoAutoSync = false, false, false, false
	flagExportFormat, flagExportFilename = "CSV", ""
	historyTime = time.Time{}
	verifv.PinNotFound = pinentry.ErrNotFound
}

// dialog answers prompts: before each it calls answer with the prompt and what
// was printed since the last one.
type dialog struct {
	n      int
	max    int
	seen   int
	answer func(n int, prompt, said string) (string, error)
}

func (d *dialog) hook(prompt string, hidden bool) (string, error) {
	if d.n >= d.max {
		verifv.Assert(false, "the program keeps asking")
	}
	out := verifv.Output()
	if d.seen > len(out) {
		d.seen = 0 // cleared in between
	}
	said := out[d.seen:]
	d.seen = len(out)
	d.n++
	return d.answer(d.n-1, prompt, said)
}

// script answers with the given lines and then with the end of input.
func script(lines ...string) {
	d := &dialog{max: len(lines) + 20}
	d.answer = func(n int, prompt, said string) (string, error) {
		if n < len(lines) {
			return lines[n], nil
		}
		return "", io.EOF
	}
	verifv.LineHook = d.hook
}

func ask(max int, f func(n int, prompt, said string) (string, error)) *dialog {
	d := &dialog{max: max, answer: f}
	verifv.LineHook = d.hook
	return d
}

// newUI is a session on an empty store.
func newUI() *uiContext {
	resetMain()
	u := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b"}
	verifv.Assert(setupLineEditor(u) == nil, "the terminal could not be set up")
	u.store = blobformat.Blobs{DB: new(txlogs.DB)}
	return u
}

func sameTx(a, b txlogs.Tx) bool {
	return verifv.And(a.Time == b.Time, a.Kind == b.Kind, verifv.EqS(a.UUID, b.UUID), verifv.EqS(a.Key, b.Key), verifv.EqS(a.Value, b.Value))
}

func vSameLog(a, b []txlogs.Tx) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = verifv.And(same, sameTx(a[i], b[i]))
	}
	return same
}

func cpTxs(l []txlogs.Tx) []txlogs.Tx { return append([]txlogs.Tx(nil), l...) }

// refState replays a history from nothing; ok tells whether it applies.
func refState(log []txlogs.Tx) (st map[string]map[string]string, ok bool) {
	st = map[string]map[string]string{}
	for _, tx := range log {
		e := st[tx.UUID]
		if (tx.Kind == txlogs.TxAdd) != (e == nil) {
			return nil, false
		}
		switch tx.Kind {
		case txlogs.TxAdd:
			st[tx.UUID] = map[string]string{}
		case txlogs.TxDelete:
			delete(st, tx.UUID)
		case txlogs.TxSetKey:
			e[tx.Key] = tx.Value
		case txlogs.TxDeleteKey:
			delete(e, tx.Key)
		}
	}
	return st, true
}

// storeIs tells whether the store shows exactly that state.
func storeIs(b blobformat.Blobs, st map[string]map[string]string) bool {
	if b.UpdateSnapshot() != nil || len(b.Snapshot) != len(st) {
		return false
	}
	same := true
	for id, e := range st {
		got, ok := b.Snapshot[id]
		if !ok || len(got) != len(e) {
			return false
		}
		for k, v := range e {
			w, ok := got[k]
			if !ok {
				return false
			}
			same = verifv.And(same, verifv.EqS(v, w))
		}
	}
	return same
}

func has(s, sub string) bool { return strings.Contains(s, sub) }

// session runs lines at the prompt.
func session(u *uiContext, lines ...string) error {
	script(lines...)
	r := &repl{ctx: u}
	return r.run()
}
