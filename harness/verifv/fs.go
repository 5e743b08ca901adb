package verifv

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// The file-system model: names map to inodes; every operation is one step at which the harness can inject an error
// or a crash. A crash of the process keeps what was written so far; a crash of the machine keeps directory
// operations up to some point in order, and file data only as far as it was synced (unsynced data may be lost,
// partly written or complete).

type inode struct {
	data    []byte
	synced  []byte // content as of the last sync
	dirty   bool
	isDir   bool
	mode    fs.FileMode
	mtime   int64
	wasFull bool
}

// Gone is a removed file.
type Gone struct {
	Path string
	Data []byte
}

type dirOp struct {
	kind string // link, unlink, rename
	name string
	to   string
	ino  *inode
}

var (
	names   map[string]*inode
	durable map[string]*inode
	pending []dirOp

	// FSStep counts operations; FSFault is the step at which an error is injected, FSCrash the step before which
	// the machine stops (-1: never). FSPartial lets a failing or crashing write write this many bytes first.
	FSStep    int
	FSFault   int
	FSCrash   int
	FSPartial int
	// FSLog records the operations with their path.
	FSLog []string
	tmpN  int
	// FSOpenHook is called before a file is opened.
	FSOpenHook func(path string, flag int)
	// Removed is what files held when they were removed.
	Removed []Gone
	// Wrote is everything written to files.
	Wrote []Gone
	// TempNames records every temporary file created.
	TempNames []string
	Cwd       = "/cwd"
)

func resetFS() {
	names = map[string]*inode{}
	durable = map[string]*inode{}
	pending = nil
	FSStep, FSFault, FSCrash, FSPartial = 0, -1, -1, 0
	FSLog, TempNames, Wrote = nil, nil, nil
	tmpN = 0
	for _, d := range []string{"/", "/cwd", "/tmp", "/home", "/home/u"} {
		names[d] = &inode{isDir: true, mode: fs.ModeDir | 0755}
		durable[d] = names[d]
	}
}

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return filepath.Clean(p)
}

func pathErr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// fsStep accounts for one operation; it reports an injected error.
func fsStep(op, path string) error {
	FSLog = append(FSLog, op+" "+path)
	n := FSStep
	FSStep++
	if n == FSCrash && op != "write" {
		panic(CrashPanic{})
	}
	if n == FSFault && op != "write" {
		return syscall.EIO
	}
	return nil
}

// PutFile places a file that is already safely on disk.
func PutFile(path string, data []byte) {
	p := abs(path)
	ino := &inode{data: data, synced: data, mode: 0600, mtime: 1500000000000000000}
	names[p] = ino
	durable[p] = ino
}

// PutDir places a directory.
func PutDir(path string) {
	p := abs(path)
	names[p] = &inode{isDir: true, mode: fs.ModeDir | 0755}
	durable[p] = names[p]
}

// GetFile returns the content of a file as the running system sees it.
func GetFile(path string) ([]byte, bool) {
	ino := names[abs(path)]
	if ino == nil || ino.isDir {
		return nil, false
	}
	return ino.data, true
}

// FileMode returns the permissions of a file.
func FileMode(path string) fs.FileMode {
	ino := names[abs(path)]
	if ino == nil {
		return 0
	}
	return ino.mode
}

// Files lists the regular files.
func Files() []string {
	var out []string
	for n, i := range names {
		if !i.isDir {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// AfterCrash gives the content of a file after the machine restarted; the crash outcome is a nondeterministic choice.
func AfterCrash(path string, machine bool) ([]byte, bool) {
	view := names
	if machine {
		view = map[string]*inode{}
		for k, v := range durable {
			view[k] = v
		}
		k := Choose("crash-dirops", len(pending)+1)
		for _, op := range pending[:k] {
			applyDir(view, op)
		}
	}
	ino := view[abs(path)]
	if ino == nil || ino.isDir {
		return nil, false
	}
	if !machine || !ino.dirty {
		return ino.data, true
	}
	switch Choose("crash-data", 4) {
	case 0:
		return ino.data, true
	case 1:
		return ino.synced, true
	case 2:
		return nil, true
	}
	return ino.data[:len(ino.data)/2], true
}

func applyDir(m map[string]*inode, op dirOp) {
	switch op.kind {
	case "link":
		m[op.name] = op.ino
	case "unlink":
		delete(m, op.name)
	case "rename":
		delete(m, op.name)
		m[op.to] = op.ino
	}
}

func dirDo(op dirOp) {
	applyDir(names, op)
	pending = append(pending, op)
}

func syncDirs() {
	for _, op := range pending {
		applyDir(durable, op)
	}
	pending = nil
}

// ---- os.File

type Os_FileInfo = os.FileInfo
type Os_FileMode = os.FileMode

type fileInfo struct {
	name string
	ino  *inode
}

func (f fileInfo) Name() string       { return f.name }
func (f fileInfo) Size() int64        { return int64(len(f.ino.data)) }
func (f fileInfo) Mode() fs.FileMode  { return f.ino.mode }
func (f fileInfo) ModTime() time.Time { return time.Unix(0, f.ino.mtime) }
func (f fileInfo) IsDir() bool        { return f.ino.isDir }
func (f fileInfo) Sys() any           { return nil }

// Os_File models *os.File.
type Os_File struct {
	name   string
	ino    *inode
	off    int
	flag   int
	closed bool
	std    int
}

var (
	Os_Stdin  = &Os_File{name: "/dev/stdin", std: 1}
	Os_Stdout = &Os_File{name: "/dev/stdout", std: 2}
	Os_Stderr = &Os_File{name: "/dev/stderr", std: 3}
	// Stdin is what standard input delivers.
	Stdin io.Reader
)

func (f *Os_File) Name() string { return f.name }
func (f *Os_File) Fd() uintptr  { return uintptr(3 + f.std) }

func (f *Os_File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std == 1 {
		return Stdin.Read(b)
	}
	if f.closed {
		return 0, pathErr("read", f.name, os.ErrClosed)
	}
	if err := fsStep("read", f.name); err != nil {
		return 0, pathErr("read", f.name, err)
	}
	if f.ino.isDir {
		return 0, pathErr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.ino.data) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[f.off:])
	f.off += n
	return n, nil
}

func (f *Os_File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std != 0 {
		Emit(string(b))
		return len(b), nil
	}
	if f.closed {
		return 0, pathErr("write", f.name, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, pathErr("write", f.name, syscall.EBADF)
	}
	fsStep("write", f.name)
	n := len(b)
	Wrote = append(Wrote, Gone{f.name, append([]byte(nil), b...)})
	bad := FSStep-1 == FSFault || FSStep-1 == FSCrash
	if bad && n > FSPartial {
		n = FSPartial
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = len(f.ino.data)
	}
	d := make([]byte, 0, f.off+n)
	d = append(d, f.ino.data...)
	for len(d) < f.off {
		d = append(d, 0)
	}
	tail := []byte(nil)
	if f.off+n < len(d) {
		tail = d[f.off+n:]
	}
	nd := append(append(append([]byte(nil), d[:f.off]...), b[:n]...), tail...)
	f.ino.data = nd
	f.ino.dirty = true
	f.off += n
	if FSStep-1 == FSCrash {
		panic(CrashPanic{})
	}
	if FSStep-1 == FSFault {
		return n, pathErr("write", f.name, syscall.ENOSPC)
	}
	return n, nil
}

func (f *Os_File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *Os_File) WriteAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = o
	return n, err
}

func (f *Os_File) ReadAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = int(off)
	n, err := f.Read(b)
	f.off = o
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *Os_File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, pathErr("seek", f.name, os.ErrClosed)
	}
	if err := fsStep("seek", f.name); err != nil {
		return 0, pathErr("seek", f.name, err)
	}
	switch whence {
	case 0:
		f.off = int(off)
	case 1:
		f.off += int(off)
	case 2:
		f.off = len(f.ino.data) + int(off)
	}
	return int64(f.off), nil
}

func (f *Os_File) Truncate(n int64) error {
	if err := fsStep("truncate", f.name); err != nil {
		return pathErr("truncate", f.name, err)
	}
	d := append([]byte(nil), f.ino.data...)
	for int64(len(d)) < n {
		d = append(d, 0)
	}
	f.ino.data = d[:n]
	f.ino.dirty = true
	return nil
}

func (f *Os_File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return pathErr("sync", f.name, os.ErrClosed)
	}
	if err := fsStep("sync", f.name); err != nil {
		return pathErr("sync", f.name, err)
	}
	if f.ino.isDir {
		syncDirs()
		return nil
	}
	f.ino.synced, f.ino.dirty = f.ino.data, false
	return nil
}

func (f *Os_File) Chmod(m fs.FileMode) error {
	if err := fsStep("chmod", f.name); err != nil {
		return pathErr("chmod", f.name, err)
	}
	f.ino.mode = m
	return nil
}

func (f *Os_File) Stat() (os.FileInfo, error) {
	if err := fsStep("fstat", f.name); err != nil {
		return nil, pathErr("stat", f.name, err)
	}
	return fileInfo{filepath.Base(f.name), f.ino}, nil
}

func (f *Os_File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return pathErr("close", f.name, os.ErrClosed)
	}
	err := fsStep("close", f.name)
	f.closed = true
	if err != nil {
		return pathErr("close", f.name, err)
	}
	return nil
}

// OpenFiles is the number of opens minus closes that succeeded.

func Os_OpenFile(name string, flag int, perm os.FileMode) (*Os_File, error) {
	p := abs(name)
	if FSOpenHook != nil {
		FSOpenHook(p, flag)
	}
	if err := fsStep("open", p); err != nil {
		return nil, pathErr("open", name, err)
	}
	ino := names[p]
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case ino == nil && flag&os.O_CREATE == 0:
		return nil, pathErr("open", name, syscall.ENOENT)
	case ino == nil:
		dir := names[filepath.Dir(p)]
		if dir == nil {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		if !dir.isDir {
			return nil, pathErr("open", name, syscall.ENOTDIR)
		}
		ino = &inode{mode: perm, mtime: clock}
		dirDo(dirOp{kind: "link", name: p, ino: ino})
	case flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL:
		return nil, pathErr("open", name, syscall.EEXIST)
	case ino.isDir && write:
		return nil, pathErr("open", name, syscall.EISDIR)
	case flag&os.O_TRUNC != 0 && write:
		ino.data = nil
		ino.dirty = true
	}
	return &Os_File{name: name, ino: ino, flag: flag}, nil
}

func Os_Open(name string) (*Os_File, error) { return Os_OpenFile(name, os.O_RDONLY, 0) }
func Os_Create(name string) (*Os_File, error) {
	return Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Os_ReadFile(name string) ([]byte, error) {
	f, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.ino.isDir {
		return nil, pathErr("read", name, syscall.EISDIR)
	}
	if err := fsStep("read", f.name); err != nil {
		return nil, pathErr("read", name, err)
	}
	return append([]byte{}, f.ino.data...), nil
}

func Os_WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := Os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Os_Remove(name string) error {
	p := abs(name)
	if err := fsStep("remove", p); err != nil {
		return pathErr("remove", name, err)
	}
	ino := names[p]
	if ino == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	dirDo(dirOp{kind: "unlink", name: p, ino: ino})
	Removed = append(Removed, Gone{p, ino.data})
	return nil
}

func Os_RemoveAll(name string) error {
	p := abs(name)
	if err := fsStep("remove", p); err != nil {
		return pathErr("remove", name, err)
	}
	for _, n := range Files() {
		if n == p || strings.HasPrefix(n, p+"/") {
			dirDo(dirOp{kind: "unlink", name: n, ino: names[n]})
		}
	}
	return nil
}

func Os_Rename(from, to string) error {
	a, b := abs(from), abs(to)
	if err := fsStep("rename", a+" "+b); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	ino := names[a]
	if ino == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if t := names[b]; t != nil && t.isDir != ino.isDir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EISDIR}
	}
	if names[filepath.Dir(b)] == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	dirDo(dirOp{kind: "rename", name: a, to: b, ino: ino})
	return nil
}

func Os_Stat(name string) (os.FileInfo, error) {
	p := abs(name)
	if err := fsStep("stat", p); err != nil {
		return nil, pathErr("stat", name, err)
	}
	ino := names[p]
	if ino == nil {
		if dir := names[filepath.Dir(p)]; dir != nil && !dir.isDir {
			return nil, pathErr("stat", name, syscall.ENOTDIR)
		}
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return fileInfo{filepath.Base(p), ino}, nil
}

func Os_Lstat(name string) (os.FileInfo, error) { return Os_Stat(name) }

func Os_Chmod(name string, m os.FileMode) error {
	if err := fsStep("chmod", abs(name)); err != nil {
		return pathErr("chmod", name, err)
	}
	ino := names[abs(name)]
	if ino == nil {
		return pathErr("chmod", name, syscall.ENOENT)
	}
	ino.mode = m
	return nil
}

func Os_Mkdir(name string, m os.FileMode) error {
	if err := fsStep("mkdir", abs(name)); err != nil {
		return pathErr("mkdir", name, err)
	}
	if names[abs(name)] != nil {
		return pathErr("mkdir", name, syscall.EEXIST)
	}
	dirDo(dirOp{kind: "link", name: abs(name), ino: &inode{isDir: true, mode: fs.ModeDir | m}})
	return nil
}

func Os_MkdirAll(name string, m os.FileMode) error {
	err := Os_Mkdir(name, m)
	if errors.Is(err, fs.ErrExist) {
		return nil
	}
	return err
}

func Os_Truncate(name string, n int64) error {
	f, err := Os_OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Os_Link(from, to string) error {
	if err := fsStep("link", abs(to)); err != nil {
		return err
	}
	ino := names[abs(from)]
	if ino == nil {
		return syscall.ENOENT
	}
	if names[abs(to)] != nil {
		return syscall.EEXIST
	}
	dirDo(dirOp{kind: "link", name: abs(to), ino: ino})
	return nil
}

func Os_CreateTemp(dir, pattern string) (*Os_File, error) {
	if dir == "" {
		dir = Os_TempDir()
	}
	tmpN++
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	name := filepath.Join(dir, pre+"tmp"+string(rune('0'+tmpN))+suf)
	f, err := Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
	if err == nil {
		TempNames = append(TempNames, name)
	}
	return f, err
}

func Os_TempDir() string               { return "/tmp" }
func Os_UserHomeDir() (string, error)  { return "/home/u", nil }
func Os_Getwd() (string, error)        { return Cwd, nil }
func Os_Getpid() int                   { return 42 }
func Os_Exit(code int)                 { panic(ExitPanic{code}) }
func Filepath_Abs(p string) (string, error) { return abs(p), nil }
func Filepath_EvalSymlinks(p string) (string, error) {
	if names[abs(p)] == nil {
		return "", pathErr("lstat", p, syscall.ENOENT)
	}
	return filepath.Clean(p), nil
}

func Ioutil_ReadFile(name string) ([]byte, error) { return Os_ReadFile(name) }
func Ioutil_WriteFile(name string, data []byte, perm os.FileMode) error {
	return Os_WriteFile(name, data, perm)
}
func Ioutil_TempFile(dir, pattern string) (*Os_File, error) { return Os_CreateTemp(dir, pattern) }

// SetFile changes what a file holds, as another process would.
func SetFile(path string, data []byte) {
	if ino := names[abs(path)]; ino != nil {
		ino.data, ino.dirty = data, true
	}
}

// DropFile removes a file, as another process would.
func DropFile(path string) {
	dirDo(dirOp{kind: "unlink", name: abs(path)})
}
