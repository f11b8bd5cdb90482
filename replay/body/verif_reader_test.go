package body_test

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"time"
)

// core is a scripted reader that keeps the io contracts. It is not
// synchronised: the bodies must serialise access to it.
type core struct {
	r        *rand.Rand
	content  []byte
	pos      int64
	faults   int // percent of calls that misbehave (within the contract)
	terminal error
	withErr  bool // the terminal error comes together with the last bytes
	seekable bool // transient errors, EOF is not sticky
	done     bool

	calls    int
	closed   int
	after    int // calls after Close
	taken    int64
	closeErr error
	errs     []error // errors returned since the log was last cleared
	boom     bool    // panic at the next call
	names    []string

	statSize int64
	statErr  error
	seekErr  map[int]error // by number of the Seek call
	seeks    int
}

func (c *core) called(name string) {
	c.calls++
	c.names = append(c.names, name)
	if c.closed > 0 {
		c.after++
	}
	if c.boom {
		c.boom = false
		panic("reader panics")
	}
}

func (c *core) fail(err error) error {
	c.errs = append(c.errs, err)
	return err
}

func (c *core) transient() error {
	switch c.r.Intn(3) {
	case 0:
		return c.fail(fmt.Errorf("transient error #%d", c.calls))
	case 1:
		return c.fail(fmt.Errorf("wrapped #%d: %w", c.calls, io.EOF))
	}
	return c.fail(&fs.PathError{Op: "read", Path: fmt.Sprint(c.calls), Err: io.ErrUnexpectedEOF})
}

func (c *core) read(p []byte) (int, error) {
	c.called("Read")
	if !c.seekable {
		if c.done { // a reader must not be used after its terminal error
			for i := range p {
				p[i] = 0xEE
			}
			return len(p), nil
		}
		avail := len(c.content) - int(c.pos)
		n := len(p)
		if n > avail {
			n = avail
		}
		if c.r.Intn(100) < c.faults {
			if n > 0 {
				n = c.r.Intn(n + 1)
			}
		}
		copy(p, c.content[c.pos:int(c.pos)+n])
		c.pos += int64(n)
		c.taken += int64(n)
		if int(c.pos) == len(c.content) && (n == 0 && len(p) > 0 || n > 0 && c.withErr) {
			c.done = true
			return n, c.fail(c.terminal)
		}
		return n, nil
	}
	if c.pos >= int64(len(c.content)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, c.content[c.pos:])
	var err error
	if c.r.Intn(100) < c.faults {
		switch c.r.Intn(4) {
		case 0:
			n, err = c.r.Intn(n+1), c.transient()
		case 1:
			n, err = 0, c.transient()
		default:
			if n > 1 {
				n = 1 + c.r.Intn(n)
			}
		}
		for i := n; i < len(p); i++ {
			p[i] = 0
		}
	} else if int(c.pos)+n == len(c.content) && c.withErr {
		err = io.EOF
	}
	c.pos += int64(n)
	return n, err
}

func (c *core) readAt(p []byte, off int64) (int, error) {
	c.called("ReadAt")
	if off < 0 {
		return 0, c.fail(errors.New("reader: negative offset"))
	}
	if off >= int64(len(c.content)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, c.content[off:])
	var err error
	if n < len(p) || int(off)+n == len(c.content) && c.withErr {
		err = io.EOF
	}
	if c.r.Intn(100) < c.faults {
		n, err = c.r.Intn(n+1), c.transient()
	}
	return n, err
}

func (c *core) seek(off int64, whence int) (int64, error) {
	c.called("Seek")
	c.seeks++
	if err := c.seekErr[c.seeks]; err != nil {
		return 0, err
	}
	if c.r != nil && c.r.Intn(100) < c.faults/3 {
		return 0, c.transient()
	}
	switch whence {
	case io.SeekCurrent:
		off += c.pos
	case io.SeekEnd:
		off += int64(len(c.content))
	}
	if off < 0 {
		return 0, c.fail(errors.New("reader: negative position"))
	}
	c.pos = off
	return off, nil
}

func (c *core) close() error {
	c.called("Close")
	c.closed++
	return c.closeErr
}

type finfo struct{ size int64 }

func (f finfo) Name() string       { return "f" }
func (f finfo) Size() int64        { return f.size }
func (f finfo) Mode() fs.FileMode  { return 0 }
func (f finfo) ModTime() time.Time { return time.Time{} }
func (f finfo) IsDir() bool        { return false }
func (f finfo) Sys() interface{}   { return nil }

type pR struct{ c *core }
type pS struct{ c *core }
type pA struct{ c *core }
type pC struct{ c *core }
type pF struct{ c *core }

func (x pR) Read(p []byte) (int, error)                { return x.c.read(p) }
func (x pS) Seek(off int64, whence int) (int64, error) { return x.c.seek(off, whence) }
func (x pA) ReadAt(p []byte, off int64) (int, error)   { return x.c.readAt(p, off) }
func (x pC) Close() error                              { return x.c.close() }
func (x pF) Stat() (fs.FileInfo, error) {
	x.c.called("Stat")
	if x.c.statErr != nil {
		return nil, x.c.statErr
	}
	return finfo{x.c.statSize}, nil
}

type r0000 struct{ pR }
type rS struct {
	pR
	pS
}
type rA struct {
	pR
	pA
}
type rSA struct {
	pR
	pS
	pA
}
type rC struct {
	pR
	pC
}
type rSC struct {
	pR
	pS
	pC
}
type rAC struct {
	pR
	pA
	pC
}
type rSAC struct {
	pR
	pS
	pA
	pC
}
type rF struct {
	pR
	pF
}
type rFC struct {
	pR
	pF
	pC
}
type rFSC struct {
	pR
	pF
	pS
	pC
}
type rFAC struct {
	pR
	pF
	pA
	pC
}
type rFSAC struct {
	pR
	pF
	pS
	pA
	pC
}
type rFS struct {
	pR
	pF
	pS
}

// wrap gives the core the named capabilities.
func (c *core) wrap(seek, at, closer, file bool) io.Reader {
	r, s, a, k, f := pR{c}, pS{c}, pA{c}, pC{c}, pF{c}
	switch {
	case file && !closer && seek:
		return rFS{r, f, s}
	case file && !closer:
		return rF{r, f}
	case file && seek && at:
		return rFSAC{r, f, s, a, k}
	case file && seek:
		return rFSC{r, f, s, k}
	case file && at:
		return rFAC{r, f, a, k}
	case file:
		return rFC{r, f, k}
	case seek && at && closer:
		return rSAC{r, s, a, k}
	case seek && closer:
		return rSC{r, s, k}
	case at && closer:
		return rAC{r, a, k}
	case closer:
		return rC{r, k}
	case seek && at:
		return rSA{r, s, a}
	case seek:
		return rS{r, s}
	case at:
		return rA{r, a}
	}
	return r0000{r}
}
