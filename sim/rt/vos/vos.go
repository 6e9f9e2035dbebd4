// Package vos is the simulated file system behind the file seam. Only the
// files a plan defines exist; how their bytes are delivered and which errors
// occur is part of the plan.
package vos

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	"verif.local/rt"
)

// FileSpec is one simulated file with its delivery and fault plan.
type FileSpec struct {
	Name string `json:"name"`
	Data rt.Str `json:"data"`

	// delivery
	Chunks      []int `json:"chunks,omitempty"` // successive read sizes, cycled; 0 is an empty read, negative: as much as asked
	EOFWithData bool  `json:"eof_with_data,omitempty"`

	// faults
	OpenErr   string `json:"open_err,omitempty"`   // ENOENT EACCES EMFILE EIO
	OpenTimes int    `json:"open_times,omitempty"` // how many opens fail; 0 all
	ErrKind   string `json:"err_kind,omitempty"`   // EIO EISDIR UNEXPECTED_EOF ETIMEDOUT ECANCELED PANIC NOPROGRESS
	ErrAt     int    `json:"err_at,omitempty"`     // byte offset at which reads fail
	ErrTimes  int    `json:"err_times,omitempty"`  // how many reads fail; 0 all
	ErrData   bool   `json:"err_data,omitempty"`   // the error comes together with the last bytes
	StallAt   int    `json:"stall_at,omitempty"`   // -1 none: the read reaching this offset stalls (value is offset+1)
	CloseErr  bool   `json:"close_err,omitempty"`
}

// Clean returns the file without faults (delivery kept).
func (f FileSpec) Clean() FileSpec {
	return FileSpec{Name: f.Name, Data: f.Data, Chunks: f.Chunks, EOFWithData: f.EOFWithData}
}

type vfile struct {
	FileSpec
	opens  int
	errs   int
	faults int
}

// Stats counts what actually happened.
type Stats struct {
	Opens, Closes, Reads                                             int
	OpenErrs, ReadErrs, Panics, Stalls, ShortReads, EmptyReads       int
	EOFData, CloseErrs, NoProgress, Missing, DoubleClose, AfterClose int
}

// Add sums counters.
func (a *Stats) Add(b Stats) {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b)
	for i := 0; i < x.NumField(); i++ {
		x.Field(i).SetInt(x.Field(i).Int() + y.Field(i).Int())
	}
}

var (
	files   []vfile
	open    int
	st      Stats
	mapping func(string) string

	opened  [256]string
	nOpened int
)

// ReaderPanic is the value a panicking simulated device panics with.
type ReaderPanic struct{ Name string }

// Install replaces the file system contents.
func Install(fs []FileSpec) {
	files = make([]vfile, len(fs))
	for i := range fs {
		files[i].FileSpec = fs[i]
	}
	open = 0
	nOpened = 0
}

// Heal removes all faults, keeping contents.
func Heal() {
	for i := range files {
		files[i].FileSpec = files[i].FileSpec.Clean()
	}
}

// Faults is the number of faults each file has delivered since Install.
func Faults() map[string]int {
	m := map[string]int{}
	for i := range files {
		m[files[i].Name] = files[i].faults
	}
	return m
}

// TakeOpened returns and clears the names of the files Open was asked for.
//
//go:norace
func TakeOpened() []string {
	l := make([]string, nOpened)
	for i := range l {
		l[i] = opened[i]
	}
	nOpened = 0
	return l
}

// OpenHandles is the number of handles not closed.
//
//go:norace
func OpenHandles() int { return open }

// TakeStats returns and clears the counters.
func TakeStats() Stats { s := st; st = Stats{}; return s }

//go:norace
func find(name string) *vfile {
	for i := range files {
		if files[i].Name == name {
			return &files[i]
		}
	}
	for i := range files {
		// bundled dictionaries are addressed by wherever the sources lie
		if strings.HasPrefix(files[i].Name, "*") && strings.HasSuffix(name, files[i].Name[1:]) {
			return &files[i]
		}
	}
	return nil
}

func errOf(k string) error {
	switch k {
	case "ENOENT":
		return syscall.ENOENT
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "EISDIR":
		return syscall.EISDIR
	case "ETIMEDOUT":
		return syscall.ETIMEDOUT
	case "ECANCELED":
		return errors.New("operation was canceled")
	case "UNEXPECTED_EOF":
		return io.ErrUnexpectedEOF
	case "CLOSED":
		return os.ErrClosed
	}
	return syscall.EIO
}

// File is an open simulated file.
type File struct {
	f      *vfile
	name   string
	off    int
	ci     int
	closed bool
	stall  bool
}

// Open opens a simulated file.
//
//go:norace
func Open(name string) (*File, error) {
	rt.Yield()
	f := find(name)
	if nOpened < len(opened) {
		opened[nOpened] = name
		if f != nil {
			opened[nOpened] = f.Name
		}
		nOpened++
	}
	if f == nil {
		st.Missing++
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	f.opens++
	if f.OpenErr != "" && (f.OpenTimes == 0 || f.opens <= f.OpenTimes) {
		st.OpenErrs++
		f.faults++
		return nil, &fs.PathError{Op: "open", Path: name, Err: errOf(f.OpenErr)}
	}
	st.Opens++
	open++
	return &File{f: f, name: name}, nil
}

// Reader opens a simulated stream that is not a file (no handle accounting).
//
//go:norace
func Reader(name string) *File {
	f := find(name)
	if f == nil {
		panic("vos: no stream " + name)
	}
	open++
	return &File{f: f, name: name}
}

// OpenFile opens a simulated file for reading.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EROFS}
	}
	return Open(name)
}

// Read delivers the next bytes according to the plan.
//
//go:norace
func (f *File) Read(p []byte) (int, error) {
	rt.Yield()
	st.Reads++
	if f.closed {
		st.AfterClose++
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	if len(p) == 0 {
		return 0, nil
	}
	v := f.f
	if v.StallAt > 0 && f.off >= v.StallAt-1 && !f.stall {
		f.stall = true
		st.Stalls++
		rt.Stall()
	}
	faulty := v.ErrKind != "" && (v.ErrTimes == 0 || v.errs < v.ErrTimes)
	if faulty && f.off >= v.ErrAt {
		return 0, f.fail()
	}
	data := v.Data
	if f.off >= len(data) {
		return 0, io.EOF
	}
	n := len(p)
	if len(v.Chunks) > 0 {
		c := v.Chunks[f.ci%len(v.Chunks)]
		f.ci++
		if c == 0 {
			st.EmptyReads++
			return 0, nil
		}
		if c > 0 && c < n {
			n = c
			st.ShortReads++
		}
	}
	if rest := len(data) - f.off; n > rest {
		n = rest
	}
	if faulty && f.off+n > v.ErrAt {
		n = v.ErrAt - f.off
	}
	if v.StallAt > 0 && !f.stall && f.off+n > v.StallAt-1 && v.StallAt-1 > f.off {
		n = v.StallAt - 1 - f.off
	}
	copy(p, data[f.off:f.off+n])
	f.off += n
	if faulty && v.ErrData && f.off == v.ErrAt && v.ErrKind != "PANIC" && v.ErrKind != "NOPROGRESS" {
		return n, f.fail()
	}
	if v.EOFWithData && f.off == len(data) && v.ErrKind == "" {
		st.EOFData++
		return n, io.EOF
	}
	return n, nil
}

//go:norace
func (f *File) fail() error {
	v := f.f
	v.errs++
	v.faults++
	switch v.ErrKind {
	case "PANIC":
		st.Panics++
		panic(ReaderPanic{f.name})
	case "NOPROGRESS":
		st.NoProgress++
		return nil
	}
	st.ReadErrs++
	if v.ErrKind == "UNEXPECTED_EOF" {
		return io.ErrUnexpectedEOF
	}
	return &fs.PathError{Op: "read", Path: f.name, Err: errOf(v.ErrKind)}
}

// Close closes the file.
//
//go:norace
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	rt.Yield()
	if f.closed {
		st.DoubleClose++
		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	open--
	st.Closes++
	if f.f.CloseErr {
		st.CloseErrs++
		return &fs.PathError{Op: "close", Path: f.name, Err: syscall.EIO}
	}
	return nil
}

// Name returns the name given to Open.
func (f *File) Name() string { return f.name }

// ReadAt, Seek, Stat and Fd cover the rest of what readers use.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if off > int64(len(f.f.Data)) {
		return 0, io.EOF
	}
	n := copy(p, f.f.Data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	case io.SeekEnd:
		f.off = len(f.f.Data) + int(off)
	}
	if f.off < 0 {
		f.off = 0
		return 0, errors.New("negative position")
	}
	return int64(f.off), nil
}

type info struct {
	n string
	s int64
	d bool
}

func (i info) Name() string { return i.n[strings.LastIndexByte(i.n, '/')+1:] }
func (i info) Size() int64  { return i.s }
func (i info) Mode() os.FileMode {
	if i.d {
		return os.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.d }
func (i info) Sys() any           { return nil }

func (v *vfile) info() os.FileInfo {
	return info{v.Name, int64(len(v.Data)), v.ErrKind == "EISDIR" && v.ErrAt == 0}
}

func (f *File) Stat() (os.FileInfo, error) { return f.f.info(), nil }

// Stat describes a simulated file.
func Stat(name string) (os.FileInfo, error) {
	f := find(name)
	if f == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return f.info(), nil
}

// ReadFile reads a whole simulated file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b bytes.Buffer
	_, err = io.Copy(&b, struct{ io.Reader }{f})
	return b.Bytes(), err
}

// Exit is os.Exit.
func Exit(code int) { panic(fmt.Sprintf("vos: exit %d", code)) }
