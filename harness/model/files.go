package model

import (
	"errors"
	"io"
	"strconv"
)

// A file system in memory: paths are compared as they are written.

type inode struct {
	data []byte
	dir  bool
}

type file struct {
	n      *inode
	name   string
	pos    int
	r, w   bool
	app    bool
	closed bool
}

var (
	inodes map[string]*inode
	nTemp  int
)

type PathErr struct {
	Op, Path string
	Err      error
}

func (e *PathErr) Error() string { return e.Op + " " + e.Path + ": " + e.Err.Error() }
func (e *PathErr) Unwrap() error { return e.Err }

func clean(p string) string {
	for len(p) > 2 && p[:2] == "./" {
		p = p[2:]
	}
	q := ""
	for i := 0; i < len(p); i++ {
		if p[i] == '/' && (i+1 < len(p) && p[i+1] == '/' || i+1 == len(p) && i > 0) {
			continue
		}
		q += p[i : i+1]
	}
	return q
}

func lookup(p string) *inode {
	if inodes == nil {
		inodes = map[string]*inode{}
	}
	return inodes[clean(p)]
}

func openFile(name string, r, w, create, excl, trunc, app bool) (*file, error) {
	n := lookup(name)
	switch {
	case n == nil && !create:
		return nil, &PathErr{"open", name, errors.New("no such file or directory")}
	case n != nil && excl:
		return nil, &PathErr{"open", name, errors.New("file exists")}
	case n != nil && n.dir && w:
		return nil, &PathErr{"open", name, errors.New("is a directory")}
	case n == nil:
		n = &inode{}
		inodes[clean(name)] = n
	}
	if trunc {
		n.data = nil
	}
	return &file{n: n, name: name, r: r, w: w, app: app}, nil
}

func OsOpen(name string) (*file, error) {
	return openFile(name, true, false, false, false, false, false)
}

func OsCreate(name string) (*file, error) {
	return openFile(name, true, true, true, false, true, false)
}

func OsOpenFile(name string, flag int, perm uint32) (*file, error) {
	acc := flag & 3
	return openFile(name, acc != 1, acc != 0, flag&0x40 != 0, flag&0xc0 == 0xc0, flag&0x200 != 0, flag&0x400 != 0)
}

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	if f.n.dir {
		return nil, &PathErr{"read", name, errors.New("is a directory")}
	}
	return append([]byte{}, f.n.data...), nil
}

func OsWriteFile(name string, b []byte, perm uint32) error {
	f, err := OsCreate(name)
	if err != nil {
		return err
	}
	f.n.data = append([]byte{}, b...)
	return nil
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	nTemp++
	p := dir + "/" + pattern + strconv.Itoa(nTemp)
	lookup(p)
	inodes[p] = &inode{dir: true}
	return p, nil
}

func OsCreateTemp(dir, pattern string) (*file, error) {
	if dir == "" {
		dir = "/tmp"
	}
	nTemp++
	return OsCreate(dir + "/" + pattern + strconv.Itoa(nTemp))
}

func OsMkdir(name string, perm uint32) error {
	lookup(name)
	inodes[clean(name)] = &inode{dir: true}
	return nil
}

func OsRemove(name string) error {
	if lookup(name) == nil {
		return &PathErr{"remove", name, errors.New("no such file or directory")}
	}
	delete(inodes, clean(name))
	return nil
}

func OsRemoveAll(name string) error {
	lookup(name)
	p := clean(name)
	var gone []string
	for k := range inodes {
		if k == p || len(k) > len(p) && k[:len(p)+1] == p+"/" {
			gone = append(gone, k)
		}
	}
	for _, k := range gone {
		delete(inodes, k)
	}
	return nil
}

func OsRename(from, to string) error {
	n := lookup(from)
	if n == nil {
		return &PathErr{"rename", from, errors.New("no such file or directory")}
	}
	delete(inodes, clean(from))
	inodes[clean(to)] = n
	return nil
}

func (f *file) ok(op string, can bool) error {
	switch {
	case f == nil:
		return errors.New("invalid argument")
	case f.closed:
		return &PathErr{op, f.name, errors.New("file already closed")}
	case !can:
		return &PathErr{op, f.name, errors.New("bad file descriptor")}
	case f.n.dir:
		return &PathErr{op, f.name, errors.New("is a directory")}
	}
	return nil
}

func FileRead(f *file, p []byte) (int, error) {
	if err := f.ok("read", f != nil && f.r); err != nil {
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}

func FileWrite(f *file, p []byte) (int, error) {
	if err := f.ok("write", f != nil && f.w); err != nil {
		return 0, err
	}
	if f.app {
		f.pos = len(f.n.data)
	}
	for len(f.n.data) < f.pos {
		f.n.data = append(f.n.data, 0)
	}
	n := copy(f.n.data[f.pos:], p)
	f.n.data = append(f.n.data, p[n:]...)
	f.pos += len(p)
	return len(p), nil
}

func FileWriteString(f *file, s string) (int, error) { return FileWrite(f, []byte(s)) }

type onlyReader struct{ f *file }

func (o onlyReader) Read(p []byte) (int, error) { return FileRead(o.f, p) }

type onlyWriter struct{ f *file }

func (o onlyWriter) Write(p []byte) (int, error) { return FileWrite(o.f, p) }

func FileReadFrom(f *file, r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func FileWriteTo(f *file, w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func FileClose(f *file) error {
	if f == nil {
		return errors.New("invalid argument")
	}
	if f.closed {
		return &PathErr{"close", f.name, errors.New("file already closed")}
	}
	f.closed = true
	return nil
}

func FileName(f *file) string              { return f.name }
func FileSync(f *file) error               { return f.ok("sync", true) }
func FileChmod(f *file, perm uint32) error { return f.ok("chmod", true) }
func FileTruncate(f *file, n int64) error {
	if err := f.ok("truncate", f != nil && f.w); err != nil {
		return err
	}
	for int64(len(f.n.data)) < n {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:n]
	return nil
}

func FileSeek(f *file, off int64, whence int) (int64, error) {
	if err := f.ok("seek", true); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, &PathErr{"seek", f.name, errors.New("invalid argument")}
	}
	f.pos = int(off)
	return off, nil
}
