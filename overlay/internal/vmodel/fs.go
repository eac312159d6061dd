package vmodel

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- a file system in memory ----

type fsNode struct {
	dir  bool
	data []byte
	mode os.FileMode
}

var fsNodes = map[string]*fsNode{}
var fsPaths []string

// FSFail, when set, decides whether an operation on the path fails.
var FSFail func(op, path string) bool

// FSWrite, when set, is called when n bytes of a file have been written, before
// the rest is: a place to crash.
var FSWrite func(path string, n int)

func fsFails(op, path string) bool { return FSFail != nil && FSFail(op, path) }

func fsErr(op, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

func fsPut(p string, n *fsNode) {
	if _, ok := fsNodes[p]; !ok {
		fsPaths = append(fsPaths, p)
	}
	fsNodes[p] = n
}

func fsDel(p string) {
	delete(fsNodes, p)
	var l []string
	for _, q := range fsPaths {
		if q != p {
			l = append(l, q)
		}
	}
	fsPaths = l
}

func fsMkdir(p string) {
	p = filepath.Clean(p)
	for p != "/" && p != "." {
		if fsNodes[p] == nil {
			fsPut(p, &fsNode{dir: true, mode: 0o755 | fs.ModeDir})
		}
		p = filepath.Dir(p)
	}
}

// FSReset forgets all files.
func FSReset() { fsNodes, fsPaths = map[string]*fsNode{}, nil }

type fsInfo struct {
	name string
	n    *fsNode
}

func (i fsInfo) Name() string               { return i.name }
func (i fsInfo) Size() int64                { return int64(len(i.n.data)) }
func (i fsInfo) Mode() fs.FileMode          { return i.n.mode }
func (i fsInfo) Type() fs.FileMode          { return i.n.mode.Type() }
func (i fsInfo) ModTime() time.Time         { return time.Unix(0, 0) }
func (i fsInfo) IsDir() bool                { return i.n.dir }
func (i fsInfo) Sys() any                   { return nil }
func (i fsInfo) Info() (fs.FileInfo, error) { return i, nil }

//vsym:model os.Stat
func fsStat(p string) (os.FileInfo, error) {
	p = filepath.Clean(p)
	if fsFails("stat", p) {
		return nil, fsErr("stat", p, fs.ErrPermission)
	}
	n := fsNodes[p]
	if n == nil {
		return nil, fsErr("stat", p, fs.ErrNotExist)
	}
	return fsInfo{filepath.Base(p), n}, nil
}

//vsym:model os.Lstat
func fsLstat(p string) (os.FileInfo, error) { return fsStat(p) }

//vsym:model os.MkdirAll
func fsMkdirAll(p string, m os.FileMode) error {
	if fsFails("mkdir", p) {
		return fsErr("mkdir", p, fs.ErrPermission)
	}
	fsMkdir(p)
	return nil
}

//vsym:model os.ReadDir
func fsReadDir(p string) ([]os.DirEntry, error) {
	p = filepath.Clean(p)
	if fsFails("open", p) {
		return nil, fsErr("open", p, fs.ErrPermission)
	}
	if n := fsNodes[p]; n == nil || !n.dir {
		return nil, fsErr("open", p, fs.ErrNotExist)
	}
	var names []string
	for _, q := range fsPaths {
		if filepath.Dir(q) == p {
			names = append(names, filepath.Base(q))
		}
	}
	sort.Strings(names)
	var l []os.DirEntry
	for _, n := range names {
		l = append(l, fsInfo{n, fsNodes[filepath.Join(p, n)]})
	}
	return l, nil
}

//vsym:model os.ReadFile
func fsReadFile(p string) ([]byte, error) {
	p = filepath.Clean(p)
	if fsFails("open", p) {
		return nil, fsErr("open", p, fs.ErrPermission)
	}
	n := fsNodes[p]
	if n == nil || n.dir {
		return nil, fsErr("open", p, fs.ErrNotExist)
	}
	return append([]byte{}, n.data...), nil
}

func fsCreate(p string, m os.FileMode) (*fsNode, error) {
	if fsFails("create", p) {
		return nil, fsErr("open", p, fs.ErrPermission)
	}
	if d := fsNodes[filepath.Dir(p)]; d == nil || !d.dir {
		return nil, fsErr("open", p, fs.ErrNotExist)
	}
	n := fsNodes[p]
	if n == nil {
		n = &fsNode{mode: m}
		fsPut(p, n)
	}
	n.data = nil
	return n, nil
}

func fsAppend(p string, n *fsNode, b []byte) (int, error) {
	cut := len(b) / 2
	n.data = append(n.data, b[:cut]...)
	if FSWrite != nil {
		FSWrite(p, len(n.data))
	}
	if fsFails("write", p) {
		return cut, fsErr("write", p, fs.ErrInvalid)
	}
	n.data = append(n.data, b[cut:]...)
	return len(b), nil
}

//vsym:model os.WriteFile
func fsWriteFile(p string, b []byte, m os.FileMode) error {
	p = filepath.Clean(p)
	n, err := fsCreate(p, m)
	if err != nil {
		return err
	}
	if FSWrite != nil {
		FSWrite(p, 0)
	}
	_, err = fsAppend(p, n, b)
	return err
}

//vsym:model os.Rename
func fsRename(a, b string) error {
	a, b = filepath.Clean(a), filepath.Clean(b)
	n := fsNodes[a]
	if n == nil {
		return fsErr("rename", a, fs.ErrNotExist)
	}
	if fsFails("rename", b) {
		return fsErr("rename", b, fs.ErrPermission)
	}
	fsDel(a)
	fsPut(b, n)
	return nil
}

//vsym:model os.Remove
func fsRemove(p string) error {
	p = filepath.Clean(p)
	if fsNodes[p] == nil {
		return fsErr("remove", p, fs.ErrNotExist)
	}
	fsDel(p)
	return nil
}

//vsym:model os.RemoveAll
func fsRemoveAll(p string) error {
	p = filepath.Clean(p)
	for _, q := range append([]string{}, fsPaths...) {
		if q == p || len(q) > len(p) && q[:len(p)] == p && q[len(p)] == '/' {
			fsDel(q)
		}
	}
	return nil
}

// ---- open files ----

type fsFile struct {
	path   string
	n      *fsNode
	closed bool
}

var fsFiles = map[*os.File]*fsFile{}
var fsTemp int

//vsym:model os.MkdirTemp
func fsMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	fsTemp++
	p := filepath.Join(dir, pattern+string(rune('a'+fsTemp)))
	fsMkdir(p)
	return p, nil
}

//vsym:model os.CreateTemp
func fsCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
		fsMkdir(dir)
	}
	fsTemp++
	p := filepath.Join(dir, pattern+string(rune('a'+fsTemp)))
	return fsOpenFile(p, os.O_CREATE, 0o600)
}

//vsym:model os.Create
func fsCreateFile(p string) (*os.File, error) { return fsOpenFile(p, os.O_CREATE, 0o644) }

//vsym:model os.OpenFile
func fsOpenFile(p string, flag int, m os.FileMode) (*os.File, error) {
	p = filepath.Clean(p)
	if flag&os.O_CREATE == 0 || flag&os.O_APPEND != 0 {
		panic("vmodel: only the creation of files is modelled")
	}
	if flag&os.O_EXCL != 0 && fsNodes[p] != nil {
		return nil, fsErr("open", p, fs.ErrExist)
	}
	n, err := fsCreate(p, m)
	if err != nil {
		return nil, err
	}
	f := &os.File{}
	fsFiles[f] = &fsFile{path: p, n: n}
	return f, nil
}

//vsym:model (*os.File).Write
func fsFWrite(f *os.File, b []byte) (int, error) {
	x := fsFiles[f]
	if x == nil {
		return len(b), nil // standard output
	}
	if x.closed {
		return 0, fsErr("write", x.path, fs.ErrClosed)
	}
	return fsAppend(x.path, x.n, b)
}

//vsym:model (*os.File).WriteString
func fsFWriteString(f *os.File, s string) (int, error) { return fsFWrite(f, []byte(s)) }

//vsym:model (*os.File).Name
func fsFName(f *os.File) string { return fsFiles[f].path }

//vsym:model (*os.File).Sync
func fsFSync(f *os.File) error { return nil }

//vsym:model (*os.File).Chmod
func fsFChmod(f *os.File, m os.FileMode) error { return nil }

//vsym:model (*os.File).Close
func fsFClose(f *os.File) error {
	x := fsFiles[f]
	if x == nil {
		return nil
	}
	if x.closed {
		return fsErr("close", x.path, fs.ErrClosed)
	}
	x.closed = true
	if fsFails("close", x.path) {
		return fsErr("close", x.path, fs.ErrInvalid)
	}
	return nil
}

var _ = vsym.Symbolic

// ---- environment ----

var fsEnv = map[string]string{"HOME": "/home/user"}

//vsym:model os.Setenv
func fsSetenv(k, v string) error {
	fsEnv[k] = v
	return nil
}

//vsym:model os.Getenv
func fsGetenv(k string) string { return fsEnv[k] }

//vsym:model os.LookupEnv
func fsLookupEnv(k string) (string, bool) {
	v, ok := fsEnv[k]
	return v, ok
}
