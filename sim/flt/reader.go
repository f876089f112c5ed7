// Package flt is the simulated storage: readers and file systems that deliver
// the bytes of a file the way real ones do, and fail the way real ones do.
package flt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"verifsim/eng"
)

// InjectedError is the cause every injected storage error carries.
type InjectedError struct{ Op string }

func (e *InjectedError) Error() string { return "simulated " + e.Op + " failure" }

// Plan is the read behaviour of one opened file.
type Plan struct {
	Chunks   []int  // sizes of successive reads, cycled; 0 means (0, nil)
	EOFWith  bool   // the last bytes come together with io.EOF
	ErrAt    int    // offset at which reading fails, -1 never
	ErrWith  bool   // bytes delivered together with the error
	Panic    bool   // the reader panics instead of failing
	Err      error  // the injected error
	Desc     string // for the trace
	maxZeros int
}

// Draw draws a plan for a file of n bytes.  With faults false only the split
// of the bytes varies.
func Draw(e *eng.Ep, n int, faults bool) *Plan {
	p := &Plan{ErrAt: -1}
	switch e.Int("io", 6) {
	case 0:
		p.Chunks = []int{1 << 20}
	case 1:
		p.Chunks = []int{1}
		e.Fault("one_byte_reads")
	case 2:
		p.Chunks = []int{1 + e.Int("io", 7), 1 + e.Int("io", 64)}
		e.Fault("short_reads")
	case 3:
		for i := 0; i < 6; i++ {
			p.Chunks = append(p.Chunks, e.Int("io", 200))
		}
		p.Chunks = append(p.Chunks, 33)
		e.Fault("short_reads")
	case 4:
		p.Chunks = []int{0, 0, 511, 0, 512, 513}
		e.Fault("empty_reads")
	default:
		p.Chunks = []int{1 + e.Int("io", n+1), 1 << 20}
		e.Fault("short_reads")
	}
	if e.Bool("io", 1, 3) {
		p.EOFWith = true
		e.Fault("data_with_eof")
	}
	p.Desc = fmt.Sprintf("chunks %v eofWithData=%v", p.Chunks, p.EOFWith)
	if !faults {
		return p
	}
	switch e.Int("io", 8) {
	case 0, 1, 2, 3:
	case 4, 5, 6:
		p.ErrAt = e.Int("io", n+1)
		p.ErrWith = e.Bool("io", 1, 2)
		switch e.Int("io", 4) {
		case 0:
			p.Err = &InjectedError{"read"}
		case 1:
			p.Err = io.ErrUnexpectedEOF
		case 2:
			p.Err = fs.ErrClosed
		default:
			p.Err = &fs.PathError{Op: "read", Path: "sim", Err: &InjectedError{"disk"}}
		}
		p.Desc += fmt.Sprintf(" error at %d (%v)", p.ErrAt, p.Err)
	default:
		p.ErrAt = e.Int("io", n+1)
		p.Panic = true
		p.Desc += fmt.Sprintf(" panic at %d", p.ErrAt)
	}
	return p
}

// NoPanic replaces a drawn panic by an error.
func (p *Plan) NoPanic() *Plan {
	if p.Panic {
		p.Panic = false
		p.Err = &InjectedError{"late read"}
	}
	return p
}

// Fresh is the plan before anything was read with it.
func (p *Plan) Fresh() *Plan {
	c := *p
	c.maxZeros = 0
	return &c
}

// PanicValue is what a panicking reader panics with.
var PanicValue = errors.New("simulated reader panic")

// Reader is an io.Reader following a plan.
type Reader struct {
	e     *eng.Ep
	data  []byte
	p     *Plan
	off   int
	k     int
	Fired bool // the injected error was delivered
	Reads int
	AtEOF bool
}

func NewReader(e *eng.Ep, data []byte, p *Plan) *Reader { return &Reader{e: e, data: data, p: p} }

func (r *Reader) Read(b []byte) (int, error) {
	r.Reads++
	r.e.SimTimeNS += 50_000
	n := r.p.Chunks[r.k%len(r.p.Chunks)]
	r.k++
	if len(b) == 0 {
		return 0, nil
	}
	if n == 0 && r.p.maxZeros < 40 {
		r.p.maxZeros++
		return 0, nil
	}
	if n == 0 {
		n = 1
	}
	if n > len(b) {
		n = len(b)
	}
	end := len(r.data)
	if r.p.ErrAt >= 0 && r.p.ErrAt < end {
		end = r.p.ErrAt
	}
	if r.off+n > end {
		n = end - r.off
	}
	c := copy(b, r.data[r.off:r.off+n])
	r.off += c
	if r.p.ErrAt >= 0 && r.off >= r.p.ErrAt && (c == 0 || r.p.ErrWith) {
		r.Fired = true
		if r.p.Panic {
			r.e.Fault("reader_panic")
			panic(PanicValue)
		}
		if c > 0 {
			r.e.Fault("read_error_with_data")
		} else {
			r.e.Fault("read_error")
		}
		return c, r.p.Err
	}
	if r.off >= len(r.data) && (c == 0 || r.p.EOFWith) {
		r.AtEOF = true
		return c, io.EOF
	}
	return c, nil
}

// FS is a file system of one flat set of files.
type FS struct {
	E       *eng.Ep
	Data    map[string][]byte
	Plans   map[string]*Plan
	OpenErr map[string]error
	StatErr map[string]error
	SizeLie map[string]int64 // what Stat reports as size, if present
	Opened  int
	Closed  int
	Files   []*File
}

// Open implements fs.FS.
func (f *FS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	if err := f.OpenErr[name]; err != nil {
		f.E.Fault("open_error")
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	d, ok := f.Data[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	p := f.Plans[name]
	if p == nil {
		p = &Plan{Chunks: []int{1 << 20}, ErrAt: -1}
	}
	f.Opened++
	fl := &File{Reader: NewReader(f.E, d, p), fs: f, name: name}
	f.Files = append(f.Files, fl)
	return fl, nil
}

// File is an opened file.
type File struct {
	*Reader
	fs     *FS
	name   string
	Closes int
	Late   int // reads after close
}

func (f *File) Read(b []byte) (int, error) {
	if f.Closes > 0 {
		f.Late++
		return 0, fs.ErrClosed
	}
	return f.Reader.Read(b)
}

func (f *File) Close() error {
	f.Closes++
	f.fs.Closed++
	if f.Closes > 1 {
		return fs.ErrClosed
	}
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.fs.StatErr[f.name]; err != nil {
		f.fs.E.Fault("stat_error")
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: err}
	}
	n := int64(len(f.data))
	if l, ok := f.fs.SizeLie[f.name]; ok {
		f.fs.E.Fault("wrong_size")
		n = l
	}
	return info{f.name, n}, nil
}

type info struct {
	name string
	n    int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.n }
func (i info) Mode() fs.FileMode  { return 0o444 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }
