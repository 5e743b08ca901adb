package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native builds and runs the native replay binaries.
type Native struct {
	b     *Build
	work  string
	bins  map[string]string
	errs  map[string]error
	ready sync.WaitGroup
	mu    sync.Mutex
	n     int
}

func NewNative(b *Build, work string, harness map[string][]string) *Native {
	nt := &Native{b: b, work: work, bins: map[string]string{}, errs: map[string]error{}}
	nt.ready.Add(1)
	go func() {
		defer nt.ready.Done()
		for dir, hs := range harness {
			bin, err := nt.compile(dir, hs)
			nt.mu.Lock()
			nt.bins[dir], nt.errs[dir] = bin, err
			nt.mu.Unlock()
			if err != nil {
				debugf("native build of %q failed: %v", dir, err)
			}
		}
	}()
	return nt
}

func pkgNameOf(dir string) string {
	if dir == "" {
		return "main"
	}
	return filepath.Base(dir)
}

func (nt *Native) compile(dir string, hs []string) (string, error) {
	sort.Strings(hs)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifv.RunReplay(map[string]func(){\n", pkgNameOf(dir), vpkg)
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", h, h)
	}
	sb.WriteString("\t})\n}\n")
	extra := map[string][]byte{filepath.Join(nt.b.repo, dir, "zz_verif_replay_test.go"): []byte(sb.String())}
	sub := filepath.Join(nt.work, "ov_"+strings.ReplaceAll(dir, "/", "_"))
	if err := os.MkdirAll(sub, 0755); err != nil {
		return "", err
	}
	ov, err := nt.b.WriteOverlay(sub, extra)
	if err != nil {
		return "", err
	}
	// hide the repository's own tests of this package: they may not type-check against the redirected sources
	ents, _ := os.ReadDir(filepath.Join(nt.b.repo, dir))
	var m struct{ Replace map[string]string }
	data, _ := os.ReadFile(ov)
	json.Unmarshal(data, &m)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			m.Replace[filepath.Join(nt.b.repo, dir, e.Name())] = ""
		}
	}
	data, _ = json.Marshal(m)
	os.WriteFile(ov, data, 0644)
	bin := filepath.Join(sub, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+dir)
	cmd.Path = "/opt/veriftools/go1.27.3/bin/go"
	cmd.Dir = nt.b.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

type nativeOut struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
	Tried  map[string]int `json:"tried"`
}

// Run replays inputs; timeouts and crashes give statuses "timeout" and "crash" (only meaningful for one input).
func (nt *Native) Run(dir string, inputs []json.RawMessage, tmo time.Duration) ([]nativeOut, string, error) {
	nt.ready.Wait()
	nt.mu.Lock()
	bin, err := nt.bins[dir], nt.errs[dir]
	nt.n++
	id := nt.n
	nt.mu.Unlock()
	if err != nil {
		return nil, "", err
	}
	scratch := filepath.Join(nt.work, fmt.Sprintf("run%d", id))
	if err := os.MkdirAll(scratch, 0755); err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(scratch)
	inF, outF := filepath.Join(scratch, "in.json"), filepath.Join(scratch, "out.json")
	var buf bytes.Buffer
	buf.WriteByte('[')
	for i, x := range inputs {
		if i > 0 {
			buf.WriteByte(',')
		}
		buf.Write(x)
	}
	buf.WriteByte(']')
	if err := os.WriteFile(inF, buf.Bytes(), 0644); err != nil {
		return nil, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	cmd.Dir = scratch
	cmd.Env = []string{"VERIF_REPLAY=" + inF, "VERIF_OUT=" + outF, "PATH=/nonexistent", "HOME=" + scratch, "TMPDIR=" + scratch, "GOMEMLIMIT=2GiB", "GOTRACEBACK=single"}
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return []nativeOut{{Status: "timeout"}}, "", nil
	}
	data, rerr := os.ReadFile(outF)
	if rerr != nil {
		o := string(out)
		if len(o) > 2000 {
			o = o[:2000]
		}
		return []nativeOut{{Status: "crash", Msg: o}}, o, nil
	}
	var outs []nativeOut
	if err := json.Unmarshal(data, &outs); err != nil {
		return nil, "", err
	}
	return outs, "", nil
}

// confirm replays a violation candidate.
func (r *Run) confirm(nt *Native, v *Violation) {
	tries := 1
	if v.kind != "hang" && v.kind != "never" {
		tries = 24 // map iteration order is random natively
	}
	tmo := 60 * time.Second
	if v.kind == "hang" {
		tmo = 10 * time.Second
	}
	var last string
	for i := 0; i < tries; i++ {
		outs, _, err := nt.Run(v.d.dir, []json.RawMessage{v.inputs}, tmo)
		if err != nil {
			v.status, v.detail = "unconfirmed", "replay failed: "+firstLine(err.Error())
			return
		}
		o := outs[0]
		last = o.Status + " " + firstLine(o.Msg)
		ok := false
		switch v.kind {
		case "hang":
			ok = o.Status == "timeout" || o.Status == "crash"
		case "assert":
			ok = o.Status == "assert" && (o.Msg == v.msg || v.known == "" && !r.isKnown(o.Msg))
		case "never":
			ok = o.Tried[v.label] >= 2000
			for _, l := range o.Reach {
				if l == v.label {
					ok = false
				}
			}
			last = fmt.Sprintf("label %q tried %d times on random inputs natively", v.label, o.Tried[v.label])
		case "panic":
			ok = o.Status == "panic" || o.Status == "crash"
		}
		if ok {
			v.status = "confirmed"
			v.detail = last
			return
		}
		if o.Status == "missing" {
			break
		}
	}
	v.status, v.detail = "unconfirmed", "native replay gave: "+last
}

func (r *Run) isKnown(msg string) bool {
	for _, k := range r.known {
		if k.Property == r.prop && strings.HasPrefix(msg, k.Match) {
			return true
		}
	}
	return false
}

// validate compares path witnesses with native runs.
func (r *Run) validate(nt *Native) (ok, bad int, details []string) {
	byDir := map[string][]*witness{}
	for _, d := range r.drivers {
		byDir[d.dir] = append(byDir[d.dir], d.wit...)
	}
	for dir, ws := range byDir {
		if len(ws) == 0 {
			continue
		}
		var ins []json.RawMessage
		for _, w := range ws {
			ins = append(ins, w.inputs)
		}
		outs, _, err := nt.Run(dir, ins, 120*time.Second)
		if err != nil || len(outs) != len(ws) {
			details = append(details, fmt.Sprintf("witness replay in %q failed: %v %v", dir, err, outs))
			bad += len(ws)
			continue
		}
		for i, w := range ws {
			o := outs[i]
			same := o.Status == "ok"
			why := o.Status + " " + firstLine(o.Msg)
			if same && len(o.Obs) != len(w.obs) {
				same = false
				why = fmt.Sprintf("%d observations natively, %d symbolically", len(o.Obs), len(w.obs))
			}
			if same {
				for k := range w.obs {
					if strings.HasSuffix(w.obs[k], "=?") || strings.HasSuffix(o.Obs[k], "=?") {
						continue
					}
					if w.obs[k] != o.Obs[k] {
						same = false
						why = "observation " + w.obs[k] + " symbolically, " + o.Obs[k] + " natively"
						break
					}
				}
			}
			if same {
				ok++
			} else {
				bad++
				details = append(details, w.d.name+": "+why+" inputs "+string(w.inputs))
			}
		}
	}
	return
}
