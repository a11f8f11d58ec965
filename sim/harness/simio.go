package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
)

// The simulated streams. Each call first yields to the scheduler, as a real
// stream would block, and then follows its IOSpec.

const (
	failEOF = iota // the medium simply ends
	failUnexpected
	failEIO
	failTimeout
	failClosed
	failOnce // later reads go on where the failing one stopped
	nReadFails
)

const (
	wfailShort   = iota // accepts part of the buffer, then an error
	wfailRefuse         // accepts nothing of the failing buffer
	wfailNoSpace        // as short, and stays full
	wfailLate           // accepts everything and still reports an error
	wfailCrash          // the process dies after part of the buffer
	wfailOnce           // as short, but later writes are accepted again
	nWriteFails
)

var readFailNames = []string{"read-truncated", "read-unexpected-eof", "read-EIO", "read-timeout", "read-closed", "read-failed-once"}
var writeFailNames = []string{"write-short+EIO", "write-refused", "write-ENOSPC", "write-late-error", "crash-in-write", "write-failed-once"}

var errTimeout = errors.New("simulated timeout")

// temporary is an error that invites to try again.
type temporary struct{}

func (temporary) Error() string   { return "simulated temporary error" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

// errKinds are the values a failing medium may report; 0 is that of the kind of
// failure. A failed transfer is a failed transfer, whatever the error looks like.
var errKinds = []error{nil, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded, temporary{}, io.ErrNoProgress, fmt.Errorf("simulated: %w", syscall.EIO), &os.PathError{Op: "transfer", Path: "medium", Err: syscall.EINTR}, io.ErrShortWrite, io.ErrShortBuffer}

func readErr(kind, err int) error {
	if e := errKinds[err%len(errKinds)]; e != nil && kind != failEOF && kind != failUnexpected {
		return e
	}
	switch kind {
	case failOnce:
		return syscall.EAGAIN
	case failEOF:
		return io.EOF
	case failUnexpected:
		return io.ErrUnexpectedEOF
	case failEIO:
		return syscall.EIO
	case failTimeout:
		return errTimeout
	}
	return io.ErrClosedPipe
}

// Faults counts what actually fired.
type Faults map[string]int64

type simReader struct {
	data    []byte
	pos     int
	spec    *IOSpec
	rng     uint64
	calls   int
	failAt  int // -1: never
	kind    int
	bounds  map[int]bool // positions where an error may not come with data
	faults  Faults
	failed  bool
	yielded bool
}

func newReader(data []byte, spec *IOSpec, f Faults) *simReader {
	r := &simReader{data: data, spec: spec, failAt: -1, faults: f}
	if spec == nil {
		r.spec = &IOSpec{}
	}
	r.rng = r.spec.FragSeed
	return r
}

func (r *simReader) Read(p []byte) (int, error) {
	ioYield()
	if len(p) == 0 {
		return 0, nil
	}
	r.calls++
	if r.failed && r.kind != failOnce {
		return 0, readErr(r.kind, r.spec.Err)
	}
	if r.spec.Zero > 0 && r.calls%r.spec.Zero == 0 {
		r.faults["read-zero"]++
		return 0, nil
	}
	n := len(p)
	switch r.spec.Frag {
	case 1:
		n = 1
	case 2:
		n = 1 + int(nextRand(&r.rng)%61)
		if nextRand(&r.rng)%8 == 0 {
			n = 1 + int(nextRand(&r.rng)%4096)
		}
	case 3:
		n = (n + 1) / 2
	}
	if n > len(p) {
		n = len(p)
	} else if n < len(p) {
		r.faults["read-short"]++
	}
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end && !r.failed {
		end = r.failAt
	}
	if r.pos+n > end {
		n = end - r.pos
	}
	if n == 0 && r.pos == end {
		if r.failAt >= 0 && r.pos == r.failAt && !r.failed {
			r.failed = true
			r.faults[readFailNames[r.kind]]++
			return 0, readErr(r.kind, r.spec.Err)
		}
		return 0, io.EOF
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end {
		if r.failAt >= 0 && r.pos == r.failAt && !r.failed {
			if r.spec.WithData && r.kind != failOnce && (r.kind == failEOF || !r.bounds[r.pos]) {
				r.failed = true
				r.faults[readFailNames[r.kind]]++
				r.faults["read-error-with-data"]++
				return n, readErr(r.kind, r.spec.Err)
			}
		} else if r.pos == len(r.data) && r.spec.EOFData {
			r.faults["read-eof-with-data"]++
			return n, io.EOF
		}
	}
	return n, nil
}

type simWriter struct {
	buf    []byte
	spec   *IOSpec
	failAt int
	kind   int
	failed bool
	faults Faults
	sticky bool
}

func newWriter(spec *IOSpec, f Faults) *simWriter {
	w := &simWriter{spec: spec, failAt: -1, faults: f}
	if spec == nil {
		w.spec = &IOSpec{}
	}
	return w
}

func writeErr(kind, err int) error {
	if e := errKinds[err%len(errKinds)]; e != nil {
		return e
	}
	if kind == wfailNoSpace || kind == wfailRefuse {
		return syscall.ENOSPC
	}
	return syscall.EIO
}

func (w *simWriter) Write(p []byte) (int, error) {
	ioYield()
	if w.failed && w.kind != wfailOnce {
		return 0, writeErr(w.kind, w.spec.Err)
	}
	if !w.failed && w.failAt >= 0 && len(w.buf)+len(p) > w.failAt {
		k := w.failAt - len(w.buf)
		w.failed = true
		w.faults[writeFailNames[w.kind]]++
		switch w.kind {
		case wfailRefuse:
			k = 0
		case wfailLate:
			k = len(p)
		}
		w.take(p[:k])
		if w.kind == wfailCrash {
			panic(crashPanic{})
		}
		return k, writeErr(w.kind, w.spec.Err)
	}
	w.take(p)
	ioYield()
	return len(p), nil
}

// take stores the bytes piecewise, as a slow medium does: what the caller's
// buffer holds at that time is what reaches the medium.
func (w *simWriter) take(p []byte) {
	if w.spec.Frag == 0 || len(p) < 2 {
		w.buf = append(w.buf, p...)
		return
	}
	h := len(p) / 2
	w.buf = append(w.buf, p[:h]...)
	ioYield()
	w.faults["write-paused"]++
	w.buf = append(w.buf, p[h:]...)
}

// coarse: the library starts goroutines of its own or could not be instrumented;
// then tasks are switched between operations only.
var coarse bool

func ioYield() {
	if !coarse {
		simYield(-1)
	}
}

// Streams come in many types, and code may treat some of them differently. Each
// asReader type delivers the same bytes with the same failures as far as the type
// allows; pos tells how many bytes of the stream were consumed.

const nReaderTypes = 7

func asReader(r *simReader) (rd io.Reader, pos func() int) {
	own := func() int { return r.pos }
	switch r.spec.Type {
	case 1: // can also be read by the byte
		return &byteReader{r}, own
	case 2, 3: // read ahead
		b := bufio.NewReaderSize(r, 16<<(4*uint(r.spec.Type-2)))
		return b, func() int { return r.pos - b.Buffered() }
	case 4: // all in memory: it can only end early
		if r.failAt >= 0 && r.kind != failEOF {
			break
		}
		b := bytes.NewBuffer(append([]byte(nil), r.inMemory()...))
		n := b.Len()
		return b, func() int { return n - b.Len() }
	case 5:
		if r.failAt >= 0 && r.kind != failEOF {
			break
		}
		b := bytes.NewReader(r.inMemory())
		return b, func() int { return int(b.Size()) - b.Len() }
	case 6: // one stream behind another
		h := len(r.data) / 3
		if r.failAt >= 0 || h == 0 {
			break
		}
		one, two := newReader(r.data[:h], r.spec, r.faults), newReader(r.data[h:], r.spec, r.faults)
		return io.MultiReader(one, two), func() int { return one.pos + two.pos }
	}
	return r, own
}

func (r *simReader) inMemory() []byte {
	if r.failAt >= 0 {
		r.faults["read-truncated"]++
		return r.data[:r.failAt]
	}
	return r.data
}

type byteReader struct{ *simReader }

func (b *byteReader) ReadByte() (byte, error) {
	var p [1]byte
	for i := 0; i < 100; i++ {
		if n, err := b.Read(p[:]); n > 0 {
			return p[0], nil
		} else if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

// asWriter gives the medium another type; flush has to be called at the end.
func asWriter(w *simWriter) (wr io.Writer, flush func() bool) {
	none := func() bool { return true }
	switch w.spec.Type {
	case 1:
		return &byteWriter{w}, none
	case 2, 3:
		b := bufio.NewWriterSize(w, 16<<(4*uint(w.spec.Type-2)))
		return b, func() bool { return b.Flush() == nil }
	case 4: // more than one medium
		return io.MultiWriter(w, io.Discard), none
	}
	return w, none
}

type byteWriter struct{ *simWriter }

func (b *byteWriter) WriteByte(c byte) error {
	_, err := b.Write([]byte{c})
	return err
}

func (b *byteWriter) WriteString(s string) (int, error) { return b.Write([]byte(s)) }

func (b *byteWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{b.simWriter}, r)
}
