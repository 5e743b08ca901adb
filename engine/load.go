package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aarondl/bpass"
const vpkg = modPath + "/verifv"

var debug = os.Getenv("SYMGO_DEBUG") != ""

func debugf(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	return filepath.Base(f)
}

// prefixes used for redirected packages: selector P.Name becomes verifv.<Prefix>_Name if that exists.
var redirect = map[string]string{
	"strings": "Strings",
	"os": "Os", "io/ioutil": "Ioutil", "os/exec": "Exec", "time": "Time", "crypto/rand": "Rand", "math/rand": "Mrand",
	"github.com/gofrs/uuid": "Uuid", "github.com/atotto/clipboard": "Clipboard",
	"crypto/aes": "Aes", "github.com/enceve/crypto/camellia": "Camellia", "golang.org/x/crypto/cast5": "Cast5",
	"crypto/sha256": "Sha256", "crypto/sha512": "Sha512", "golang.org/x/crypto/scrypt": "Scrypt",
	"golang.org/x/crypto/ssh": "Ssh", modPath + "/osutil": "Osutil", modPath + "/pinentry": "Pinentry",
	modPath + "/scpsync": "Scpsync", "fmt": "Fmt", "path/filepath": "Filepath", "syscall": "Syscall",
	"github.com/pquerna/otp/totp": "Totp", "github.com/pquerna/otp": "Otp",
	"github.com/aarondl/color": "Color", "github.com/mattn/go-colorable": "Colorable", "github.com/aarondl/readline": "Readline", "github.com/integrii/flaggy": "Flaggy", "crypto/ed25519": "Ed25519", "crypto/rsa": "Rsa", "crypto/x509": "X509", "encoding/pem": "Pem",
}

// Build is the prepared source tree: overlay file contents keyed by path.
type Build struct {
	repo     string
	overlay  map[string][]byte
	harness  map[string][]string // property file -> ...
	dir      string
	skipped  map[string]string
}

func readVerifvNames(src []byte) (map[string]bool, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "v.go", src, 0)
	if err != nil {
		return nil, err
	}
	names := map[string]bool{}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil {
				names[x.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					names[y.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range y.Names {
						names[n.Name] = true
					}
				}
			}
		}
	}
	return names, nil
}

// rewriteFile redirects environment selectors to verifv.
func rewriteFile(path string, src []byte, pkgDir string, names map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	imp := map[string]string{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := filepath.Base(p)
		if s.Name != nil {
			n = s.Name.Name
		}
		if _, ok := redirect[p]; ok {
			if p == modPath+"/scpsync" && pkgDir != "" {
				continue
			}
			imp[n] = p
		}
	}
	if len(imp) == 0 {
		return src, nil
	}
	type edit struct {
		pos, end int
		s        string
	}
	var edits []edit
	used := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := imp[id.Name]
		if !ok {
			return true
		}
		to := redirect[p] + "_" + sel.Sel.Name
		if !names[to] {
			return true
		}
		edits = append(edits, edit{fset.Position(sel.Pos()).Offset, fset.Position(sel.End()).Offset, "verifv." + to})
		used[id.Name] = p
		return true
	})
	if len(edits) == 0 {
		return src, nil
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	// which imports are still used after rewriting?
	still := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if id, ok := sel.X.(*ast.Ident); ok && id.Obj == nil {
			if p, ok := imp[id.Name]; ok && !names[redirect[p]+"_"+sel.Sel.Name] {
				still[id.Name] = true
			}
		}
		return true
	})
	var out bytes.Buffer
	last := 0
	nameEnd := fset.Position(f.Name.End()).Offset
	out.Write(src[:nameEnd])
	out.WriteString("; import verifv \"" + vpkg + "\"")
	last = nameEnd
	// blank out imports no longer used
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := filepath.Base(p)
		if s.Name != nil {
			n = s.Name.Name
		}
		if used[n] == p && !still[n] {
			o := fset.Position(s.Path.Pos()).Offset
			if s.Name != nil {
				edits = append(edits, edit{fset.Position(s.Name.Pos()).Offset, fset.Position(s.Name.End()).Offset, "_"})
			} else {
				edits = append(edits, edit{o, o, "_ "})
			}
		}
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	for _, e := range edits {
		out.Write(src[last:e.pos])
		out.WriteString(e.s)
		last = e.end
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}

var repoPkgs = []string{"", "blobformat", "crypt", "fuzzy", "osutil", "pinentry", "pkcs7", "scpsync", "txlogs"}

// harnessHeader: first lines "// package-dir: X" give the package a harness file goes into.
var reDir = regexp.MustCompile(`(?m)^// package-dir: *(\S*) *$`)

// PrepareBuild rewrites the repo and adds the harness files.
func PrepareBuild(repo, verif string, files []string) (*Build, error) {
	b := &Build{repo: repo, overlay: map[string][]byte{}, skipped: map[string]string{}}
	vdir := filepath.Join(verif, "harness", "verifv")
	vents, err := os.ReadDir(vdir)
	if err != nil {
		return nil, err
	}
	names := map[string]bool{}
	for _, e := range vents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(vdir, e.Name()))
		if err != nil {
			return nil, err
		}
		nn, err := readVerifvNames(src)
		if err != nil {
			return nil, err
		}
		for k := range nn {
			names[k] = true
		}
		b.overlay[filepath.Join(repo, "verifv", e.Name())] = src
	}
	// every package directory of the repo (a change may add packages)
	var dirs []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			base := fi.Name()
			if p != repo && (strings.HasPrefix(base, ".") || base == "testdata" || base == "vendor" || base == "verifv") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	for _, d := range dirs {
		ents, _ := os.ReadDir(d)
		rel, _ := filepath.Rel(repo, d)
		if rel == "." {
			rel = ""
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(d, n)
			src, err := os.ReadFile(p)
			if err != nil {
				return nil, err
			}
			out, err := rewriteFile(p, src, rel, names)
			if err != nil {
				return nil, fmt.Errorf("rewrite %s: %w", p, err)
			}
			if !bytes.Equal(out, src) {
				b.overlay[p] = out
			}
		}
	}
	hsrc := map[string][]byte{}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		m := reDir.FindSubmatch(src)
		if m == nil {
			return nil, fmt.Errorf("%s: no package-dir line", f)
		}
		rel := string(m[1])
		if rel == "." {
			rel = ""
		}
		hsrc[filepath.Join(repo, rel, "zz_verif_"+filepath.Base(f))] = src
	}
	for p, src := range avoidClashes(hsrc) {
		b.overlay[p] = src
	}
	return b, nil
}

// avoidClashes renames the top-level names of harness files that the package
// they go into declares as well (a change may have introduced a helper that
// happens to have the same name).
func avoidClashes(hsrc map[string][]byte) map[string][]byte {
	byDir := map[string][]string{}
	for p := range hsrc {
		byDir[filepath.Dir(p)] = append(byDir[filepath.Dir(p)], p)
	}
	for dir, ps := range byDir {
		own := map[string]bool{}
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			if src, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
				nn, _ := readVerifvNames(src)
				for k := range nn {
					own[k] = true
				}
			}
		}
		clash := map[string]bool{}
		for _, p := range ps {
			nn, _ := readVerifvNames(hsrc[p])
			for k := range nn {
				if own[k] && k != "_" && k != "init" && !strings.HasPrefix(k, "Harness_") {
					clash[k] = true
				}
			}
		}
		if len(clash) == 0 {
			continue
		}
		for _, p := range ps {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, hsrc[p], parser.ParseComments)
			if err != nil {
				continue
			}
			var ids []*ast.Ident
			seen := map[*ast.Ident]bool{}
			add := func(id *ast.Ident) {
				if clash[id.Name] && !seen[id] {
					seen[id] = true
					ids = append(ids, id)
				}
			}
			for _, id := range f.Unresolved {
				add(id)
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Obj != nil && f.Scope.Lookup(id.Name) == id.Obj {
					add(id)
				}
				return true
			})
			sort.Slice(ids, func(i, j int) bool { return ids[i].Pos() < ids[j].Pos() })
			var out bytes.Buffer
			last := 0
			for _, id := range ids {
				o := fset.Position(id.Pos()).Offset
				out.Write(hsrc[p][last:o])
				out.WriteString("zzverif_" + id.Name)
				last = o + len(id.Name)
			}
			out.Write(hsrc[p][last:])
			hsrc[p] = out.Bytes()
		}
	}
	return hsrc
}

// WriteOverlay writes the overlay JSON for the go command, plus extra files.
func (b *Build) WriteOverlay(dir string, extra map[string][]byte) (string, error) {
	repl := map[string]string{}
	i := 0
	put := func(path string, data []byte) error {
		fn := filepath.Join(dir, fmt.Sprintf("f%03d_%s", i, filepath.Base(path)))
		i++
		repl[path] = fn
		return os.WriteFile(fn, data, 0644)
	}
	for p, d := range b.overlay {
		if err := put(p, d); err != nil {
			return "", err
		}
	}
	for p, d := range extra {
		if err := put(p, d); err != nil {
			return "", err
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	fn := filepath.Join(dir, "overlay.json")
	return fn, os.WriteFile(fn, js, 0644)
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "PATH", "HOME", "CGO_ENABLED", "GOTMPDIR":
			continue
		}
		out = append(out, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(out, "HOME="+home, "PATH=/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0")
}

// Loaded is the SSA program.
type Loaded struct {
	Prog        *ssa.Program
	Pkgs        map[string]*ssa.Package
	errorString types.Type
	wrapError   types.Type
	verifPkg    *ssa.Package
	fns         map[string]*ssa.Function
}

func (l *Loaded) isRepo(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func (l *Loaded) fn(pkg, name string) *ssa.Function {
	p := l.Pkgs[pkg]
	if p == nil {
		panic(engineErr("package %s not loaded", pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(engineErr("function %s.%s not found", pkg, name))
	}
	return f
}

// LoadSSA type-checks the overlaid tree and builds SSA. patterns are package dirs relative to repo.
func LoadSSA(b *Build, dirs []string) (*Loaded, []string, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: b.repo, Overlay: b.overlay, Env: goEnv()}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./"+d)
	}
	pats = append(pats, "./verifv")
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			} else {
				debugf("load: %v", e)
			}
		}
	})
	if len(errs) > 0 {
		return nil, errs, fmt.Errorf("type errors")
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{Prog: prog, Pkgs: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		l.Pkgs[p.Pkg.Path()] = p
	}
	if ep := l.Pkgs["errors"]; ep != nil {
		l.errorString = ep.Pkg.Scope().Lookup("errorString").Type()
	}
	if ep := l.Pkgs["fmt"]; ep != nil {
		l.wrapError = ep.Pkg.Scope().Lookup("wrapError").Type()
	}
	l.verifPkg = l.Pkgs[vpkg]
	return l, nil, nil
}

var _ = printer.Fprint
