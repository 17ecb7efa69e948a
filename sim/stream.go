package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"io"
	"math"
	"os"
	"strconv"
	"strings"
	"syscall"
)

// simErr is the cause of an injected fault. Identity is what counts.
type simErr struct {
	id   int
	what string
}

func (e *simErr) Error() string { return "injected " + e.what + " #" + strconv.Itoa(e.id) }

// newErr makes a fresh injected error. Some wrap well-known errors, as real
// streams' errors do.
func newErr(w *World, what string) error {
	e := &simErr{w.fired + 1, what}
	if w.eofErrs && w.T.P(60) { // not an end of file: a stream returns io.EOF itself for that
		return outerErr{errors.Join(e, io.EOF)}
	}
	switch w.T.Pick(5, 2, 2, 2, 1, 1, 2, 3, 1) {
	case 8:
		return netErr{e}
	case 6:
		return errors.Join(e, knownErrs[w.T.N(len(knownErrs))])
	case 7: // A stream may fail with just that.
		return knownErrs[w.T.N(len(knownErrs))]
	case 1:
		return &os.PathError{Op: what, Path: "sim", Err: e}
	case 2:
		return outerErr{errors.Join(e, syscall.EIO)}
	case 3:
		return errors.Join(e, os.ErrDeadlineExceeded)
	case 4:
		return errors.Join(io.ErrNoProgress, e)
	case 5:
		return errors.Join(io.ErrUnexpectedEOF, e) // as from a broken connection or decompressor
	}
	return e
}

var knownErrs = []error{
	io.ErrClosedPipe, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer,
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, syscall.ECONNRESET, syscall.ESPIPE, syscall.EINVAL,
	context.Canceled, bufio.ErrBufferFull, errors.ErrUnsupported,
}

type outerErr struct{ err error }

func (e outerErr) Error() string { return "outer: " + e.err.Error() }
func (e outerErr) Unwrap() error { return e.err }

// netErr is an error as of a network connection.
type netErr struct{ err error }

func (e netErr) Error() string   { return "net: " + e.err.Error() }
func (e netErr) Unwrap() error   { return e.err }
func (e netErr) Timeout() bool   { return true }
func (e netErr) Temporary() bool { return true }

// hasCause tells whether err preserves the injected error.
func hasCause(err, inj error) bool {
	var a, b *simErr
	if !errors.As(inj, &b) {
		return errors.Is(err, inj)
	}
	return errors.As(err, &a) && a == b && errors.Is(err, inj)
}

type seg struct {
	off  int64
	data []byte
}

// virtSeg is a part of a stream whose bytes are computed on demand.
type virtSeg struct {
	off, n int64
	gen    func(p []byte, at int64)
}

// RFault is one planned failure of a Source.
type RFault struct {
	kind     string // "byte", "read", "seek"
	at       int64  // position, or number of the operation
	withData bool   // deliver the bytes before the position together with the error
	perm     bool
	err      error
	fired    int
	inCall   bool // fired during the call in progress
}

// Source is the simulated stream below a reader. Bytes not covered by any
// segment are filler.
type Source struct {
	w      *World
	segs   []seg
	virt   *virtSeg
	end    int64
	pos    int64
	filler byte

	mode     int
	k        int
	rng      *Rng
	eofWith  bool
	zeros    bool
	scribble bool
	zrun     int

	faults []*RFault
	broken error // permanent failure
	last   error // last injected error returned

	reads, seeks, closes int
	touches              int
	closeErr             error
	onRead               func(pos int64, n int)
	retained             [][]byte
	seekable, closable   bool
	rich                 bool                       // offers more than the interfaces above
	gate                 func(pos int64, n int) int // waits for bytes to arrive
	nothing              int                        // reads which delivered nothing

	stdOK bool         // may be read through a reader of the standard library
	std   func() int64 // that reader's position
	ahead bool         // which reads ahead
	under []byte       // the memory behind it

	reset func() io.Reader // makes the same reader deliver the stream's present content
}

func newSource(w *World, off int64, data []byte) *Source {
	return &Source{w: w, segs: []seg{{off, data}}, end: off + int64(len(data)), pos: 0, filler: 0xE7, mode: 0, rng: &Rng{1}}
}

// Transfer picks how the source splits transfers.
func (s *Source) Transfer(t *Tape) {
	s.mode = t.Pick(3, 3, 4, 2, 2)
	if s.mode == 1 && s.end > 200000 {
		s.mode = 2
	}
	switch s.mode {
	case 2:
		s.k = []int{2, 3, 7, 13, 50, 700, 9000}[t.N(7)]
		if s.end > 200000 && s.k < 50 {
			s.k = 1000
		}
	case 4:
		s.k = []int{16, 64, 512, 4096}[t.N(4)]
		if s.end > 200000 {
			s.k = 4096
		}
	}
	s.eofWith = t.P(400)
	s.zeros = t.P(350)
	s.scribble = t.P(400)
	s.rng = t.Sub()
	s.w.ev("transfer", int64(s.mode), int64(s.k))
	if s.mode != 0 {
		s.w.faults["short-read-schedule"]++
	}
	if s.eofWith {
		s.w.faults["eof-with-data"]++
	}
	if s.zeros {
		s.w.faults["empty-reads"]++
	}
	if s.scribble {
		s.w.faults["scribbled-buffers"]++
	}
}

func (s *Source) fill(p []byte, pos int64) {
	i := 0
	for i < len(p) {
		at := pos + int64(i)
		n := len(p) - i
		done := false
		if v := s.virt; v != nil && at >= v.off && at < v.off+v.n {
			if int64(n) > v.off+v.n-at {
				n = int(v.off + v.n - at)
			}
			v.gen(p[i:i+n], at-v.off)
			i += n
			continue
		} else if v != nil && v.off > at && v.off-at < int64(n) {
			n = int(v.off - at)
		}
		for _, g := range s.segs {
			e := g.off + int64(len(g.data))
			if at >= g.off && at < e {
				n = copy(p[i:], g.data[at-g.off:])
				done = true
				break
			}
			if g.off > at && g.off-at < int64(n) {
				n = int(g.off - at)
			}
		}
		if !done {
			for j := i; j < i+n; j++ {
				p[j] = s.filler
			}
		}
		i += n
	}
}

func (s *Source) fire(f *RFault, kind string) {
	f.fired++
	f.inCall = true
	s.last = f.err
	if f.perm {
		s.broken = f.err
		kind += "-permanent"
	} else {
		kind += "-transient"
	}
	s.w.fault(kind)
}

func (s *Source) read(p []byte) (n int, err error) {
	s.w.step()
	s.reads++
	s.touches++
	if s.closes > 0 {
		s.w.Fail("use-after-close", "stream read after it was closed")
	}
	if s.onRead != nil && !s.ahead {
		s.onRead(s.pos, len(p))
	}
	defer func() {
		if s.scribble && n < len(p) {
			q := p[n:]
			if len(q) > 256 {
				q = q[:256]
			}
			for i := range q {
				q[i] = byte(0x5A + i)
			}
		}
		s.w.ev("read", s.pos, int64(n))
		s.w.data += int64(n)
	}()
	if s.broken != nil {
		s.last = s.broken
		return 0, s.broken
	}
	for _, f := range s.faults {
		if f.kind == "read" && f.fired == 0 && int64(s.reads) >= f.at {
			s.fire(f, "read-error")
			return 0, f.err
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.zeros && s.zrun < 3 && s.rng.N(4) == 0 {
		s.zrun++
		s.nothing++
		return 0, nil
	}
	s.zrun = 0
	limit := len(p)
	if s.gate != nil {
		limit = s.gate(s.pos, len(p))
	}
	if s.pos >= s.end {
		return 0, io.EOF
	}
	n = len(p)
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.rng.N(s.k)
	case 3:
		n = (n + 1) / 2
	case 4:
		n = s.k - int(s.pos%int64(s.k))
	}
	if n > limit {
		n = limit
	}
	if int64(n) > s.end-s.pos {
		n = int(s.end - s.pos)
	}
	for _, f := range s.faults {
		if f.kind == "byte" && f.fired == 0 && f.at >= s.pos && f.at < s.pos+int64(n) {
			n = int(f.at - s.pos)
			s.fill(p[:n], s.pos)
			if n == 0 {
				s.fire(f, "read-error-at-byte")
				return 0, f.err
			}
			s.pos += int64(n)
			if f.withData {
				s.fire(f, "read-error-with-data")
				return n, f.err
			}
			return n, nil
		}
	}
	s.fill(p[:n], s.pos)
	s.pos += int64(n)
	if s.eofWith && s.pos == s.end {
		return n, io.EOF
	}
	return n, nil
}

func (s *Source) seek(off int64, whence int) (int64, error) {
	s.w.step()
	s.seeks++
	s.touches++
	if s.closes > 0 {
		s.w.Fail("use-after-close", "stream sought after it was closed")
	}
	s.w.ev("seek", off, int64(whence))
	if s.broken != nil {
		s.last = s.broken
		return 0, s.broken
	}
	for _, f := range s.faults {
		if f.kind == "seek" && f.fired == 0 && int64(s.seeks) >= f.at {
			s.fire(f, "seek-error")
			return 0, f.err
		}
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.end
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *Source) close() error {
	s.w.step()
	s.closes++
	s.touches++
	s.w.ev("close", int64(s.closes), 0)
	if s.closes > 1 {
		s.w.Fail("double-close", "stream closed %d times", s.closes)
	}
	if s.closeErr != nil {
		s.w.fault("close-error")
	}
	return s.closeErr
}

// clearCall forgets which faults fired in the previous call.
func (s *Source) clearCall() {
	s.last = nil
	for _, f := range s.faults {
		f.inCall = false
	}
}

// The method sets which a reader's stream may have. The rich ones also offer
// what bytes.Reader, bufio.Reader and os.File do.
type (
	srcR struct{ s *Source }
	srcS struct{ s *Source }
	srcC struct{ s *Source }
	srcX struct{ s *Source }

	srcRS struct {
		srcR
		srcS
	}
	srcRC struct {
		srcR
		srcC
	}
	srcRSC struct {
		srcR
		srcS
		srcC
	}
	srcRX struct {
		srcR
		srcX
	}
	srcRSX struct {
		srcRS
		srcX
	}
	srcRCX struct {
		srcRC
		srcX
	}
	srcRSCX struct {
		srcRSC
		srcX
	}
)

func (x srcR) Read(p []byte) (int, error)         { return x.s.read(p) }
func (x srcS) Seek(o int64, w int) (int64, error) { return x.s.seek(o, w) }
func (x srcC) Close() error                       { return x.s.close() }
func (x srcX) ReadByte() (byte, error) {
	x.s.w.cover("stream-method", "ReadByte")
	var b [1]byte
	if err := x.s.readFull(b[:]); err != nil {
		return 0, err
	}
	return b[0], nil
}
func (x srcX) UnreadByte() error {
	if x.s.pos == 0 {
		return errors.New("at the beginning")
	}
	x.s.touches++
	x.s.pos--
	return nil
}
func (x srcX) ReadAt(p []byte, off int64) (int, error) {
	x.s.w.cover("stream-method", "ReadAt")
	pos := x.s.pos
	x.s.pos = off
	err := x.s.readFull(p)
	n := int(x.s.pos - off)
	x.s.pos = pos
	return n, err
}
func (x srcX) Write(p []byte) (int, error) {
	x.s.w.Fail("written", "the reader's stream was written to")
	return len(p), nil
}
func (x srcX) Size() int64 {
	x.s.w.cover("stream-method", "Size")
	return x.s.end
}
func (x srcX) Sync() error  { return nil }
func (x srcX) Flush() error { return nil }
func (x srcX) Len() int {
	x.s.w.cover("stream-method", "Len")
	if n := x.s.end - x.s.pos; n > math.MaxInt32 {
		return math.MaxInt32
	} else if n > 0 {
		return int(n)
	}
	return 0
}
func (x srcX) Discard(n int) (int, error) {
	x.s.w.cover("stream-method", "Discard")
	b := make([]byte, 4096)
	for i := 0; i < n; {
		if n-i < len(b) {
			b = b[:n-i]
		}
		k, err := x.s.read(b)
		if i += k; err != nil && i < n {
			return i, err
		}
	}
	return n, nil
}
func (x srcX) WriteTo(w io.Writer) (n int64, err error) {
	x.s.w.cover("stream-method", "WriteTo")
	b := make([]byte, 4096)
	for {
		k, err := x.s.read(b)
		m, werr := w.Write(b[:k])
		n += int64(m)
		if err == io.EOF {
			err = nil
		}
		if werr != nil {
			return n, werr
		} else if err != nil || k == 0 && x.s.pos >= x.s.end {
			return n, err
		}
	}
}

func (s *Source) readFull(p []byte) error {
	for i := 0; i < len(p); {
		n, err := s.read(p[i:])
		if i += n; err != nil && i < len(p) {
			return err
		}
	}
	return nil
}

// at is the caller's position in the stream.
func (s *Source) at() int64 {
	if s.std != nil {
		return s.std()
	}
	return s.pos
}

// spoil overwrites the memory from which the stream was read.
func (s *Source) spoil() {
	for i := range s.under {
		s.under[i] ^= 0xA5
	}
	if len(s.under) > 0 {
		s.w.faults["reused-buffer"]++
	}
}

// stdReader hands the stream out as one of the types of the standard library
// which most callers use. The simulator does not see every transfer then.
func (s *Source) stdReader() io.Reader {
	s.std, s.ahead = nil, false
	content := func(from int64) []byte {
		b := make([]byte, s.end-from)
		s.fill(b, from)
		s.under = b
		return b
	}
	k := s.w.T.N(3)
	s.w.cover("std-stream", strconv.Itoa(k))
	if s.seekable {
		if s.end < 1<<17 {
			switch k {
			case 0:
				r := bytes.NewReader(content(0))
				r.Seek(s.pos, io.SeekStart)
				s.std = func() int64 { at, _ := r.Seek(0, io.SeekCurrent); return at }
				return r
			case 1:
				r := strings.NewReader(string(content(0)))
				s.under = nil
				r.Seek(s.pos, io.SeekStart)
				s.std = func() int64 { at, _ := r.Seek(0, io.SeekCurrent); return at }
				return r
			}
		}
		r := io.NewSectionReader(srcX{s}, 0, s.end)
		r.Seek(s.pos, io.SeekStart)
		s.std = func() int64 { at, _ := r.Seek(0, io.SeekCurrent); return at }
		return r
	}
	switch k {
	case 0:
		if s.end-s.pos < 1<<17 {
			r := bytes.NewBuffer(content(s.pos))
			s.std = func() int64 { return s.end - int64(r.Len()) }
			return r
		}
	case 1:
		if s.end-s.pos < 1<<17 {
			b := content(s.pos)
			cut := s.w.T.N(len(b) + 1)
			x, y := bytes.NewReader(b[:cut]), bytes.NewReader(b[cut:])
			s.std = func() int64 { return s.end - int64(x.Len()+y.Len()) }
			return io.MultiReader(x, y)
		}
	}
	s.ahead = true
	r := bufio.NewReaderSize(srcR{s}, []int{16, 100, 4096}[s.w.T.N(3)])
	s.std = func() int64 { return s.pos - int64(r.Buffered()) }
	return r
}

// oneReader has all users of the stream share one reader of the standard
// library, which is reset each time.
func (s *Source) oneReader() {
	if s.seekable {
		r := bytes.NewReader(nil)
		s.reset = func() io.Reader {
			b := make([]byte, s.end)
			s.fill(b, 0)
			r.Reset(b)
			r.Seek(s.pos, io.SeekStart)
			return r
		}
		s.std = func() int64 { at, _ := r.Seek(0, io.SeekCurrent); return at }
		return
	}
	s.ahead = true
	r := bufio.NewReaderSize(nil, 64)
	s.reset = func() io.Reader {
		r.Reset(srcR{s})
		return r
	}
	s.std = func() int64 { return s.pos - int64(r.Buffered()) }
}

func (s *Source) Reader() io.Reader {
	if s.reset != nil {
		return s.reset()
	}
	if s.stdOK && !s.closable && s.w.T.P(150) {
		return s.stdReader()
	}
	s.std, s.ahead = nil, false
	r := srcR{s}
	s.rich = s.w.T.P(200)
	switch {
	case s.seekable && s.closable:
		if x := (srcRSC{r, srcS{s}, srcC{s}}); !s.rich {
			return x
		} else {
			return srcRSCX{x, srcX{s}}
		}
	case s.seekable:
		return s.readSeeker()
	case s.closable:
		if x := (srcRC{r, srcC{s}}); !s.rich {
			return x
		} else {
			return srcRCX{x, srcX{s}}
		}
	}
	if s.rich {
		return srcRX{r, srcX{s}}
	}
	return r
}

// ReadSeeker is a seekable stream, whatever the source is said to be.
func (s *Source) ReadSeeker() io.ReadSeeker {
	if s.stdOK && s.seekable && s.w.T.P(150) {
		return s.stdReader().(io.ReadSeeker)
	}
	s.std, s.ahead = nil, false
	s.rich = s.w.T.P(200)
	return s.readSeeker()
}

func (s *Source) readSeeker() io.ReadSeeker {
	x := srcRS{srcR{s}, srcS{s}}
	if s.rich {
		return srcRSX{x, srcX{s}}
	}
	return x
}

// Kind names the method set, for coverage.
func (s *Source) Kind() string {
	k := "R"
	if s.seekable {
		k += "S"
	}
	if s.closable {
		k += "C"
	}
	if s.rich {
		k += "+"
	}
	return k
}

// WFault is one planned failure of a Sink.
type WFault struct {
	kind   string // "byte" (accept up to the position), "write" (number of the operation), "full" (device size)
	at     int64
	late   bool // accept everything, then fail
	perm   bool
	err    error
	fired  int
	inCall bool
}

// Sink is the simulated stream below a writer.
type Sink struct {
	w        *World
	buf      []byte
	faults   []*WFault
	broken   error
	last     error
	lastN    int // bytes accepted by the failing write
	writes   int
	touches  int
	closes   int
	closeErr error
	syncErr  error
	base     int64 // bytes which were there before
	syncs    int   // failed
	closable bool
	onWrite  func(p []byte)
	stdOK    bool // may be written through a writer of the standard library
}

func (s *Sink) fire(f *WFault, kind string, n int) {
	f.fired++
	f.inCall = true
	s.last = f.err
	s.lastN = n
	if f.perm {
		s.broken = f.err
		kind += "-permanent"
	} else {
		kind += "-transient"
	}
	s.w.fault(kind)
}

func (s *Sink) accept(p []byte) {
	s.buf = append(s.buf, p...)
	s.w.data += int64(len(p))
}

func (s *Sink) write(p []byte) (n int, err error) {
	s.w.step()
	s.writes++
	s.touches++
	if s.closes > 0 {
		s.w.Fail("use-after-close", "stream written after it was closed")
	}
	defer func() { s.w.ev("write", int64(len(p)), int64(n)) }()
	if s.onWrite != nil {
		s.onWrite(p)
	}
	if s.broken != nil {
		s.last = s.broken
		s.lastN = 0
		return 0, s.broken
	}
	pos := int64(len(s.buf))
	for _, f := range s.faults {
		if f.fired > 0 {
			continue
		}
		switch f.kind {
		case "write":
			if int64(s.writes) >= f.at {
				if f.late {
					s.accept(p)
					s.fire(f, "write-error-after-all", len(p))
					return len(p), f.err
				}
				s.fire(f, "write-error-nothing", 0)
				return 0, f.err
			}
		case "byte":
			if f.at >= pos && f.at < pos+int64(len(p)) {
				k := int(f.at - pos)
				s.accept(p[:k])
				if k == 0 {
					s.fire(f, "write-error-nothing", 0)
				} else {
					s.fire(f, "write-error-torn", k)
				}
				return k, f.err
			}
		case "full":
			if pos+int64(len(p)) > f.at {
				k := 0
				if f.at > pos {
					k = int(f.at - pos)
				}
				s.accept(p[:k])
				s.fire(f, "device-full", k)
				return k, f.err
			}
		}
	}
	s.accept(p)
	return len(p), nil
}

// sync is what a file or a buffer in front of one may do. It may fail.
func (s *Sink) sync() error {
	if s.syncErr == nil || s.closes > 0 {
		return nil
	}
	s.syncs++
	s.w.fault("sync-error")
	return s.syncErr
}

func (s *Sink) close() error {
	s.w.step()
	s.closes++
	s.touches++
	s.w.ev("close", int64(s.closes), 0)
	if s.closes > 1 {
		s.w.Fail("double-close", "stream closed %d times", s.closes)
	}
	if s.closeErr != nil {
		s.w.fault("close-error")
	}
	return s.closeErr
}

func (s *Sink) clearCall() {
	s.last = nil
	s.lastN = 0
	for _, f := range s.faults {
		f.inCall = false
	}
}

// The method sets which a writer's stream may have. The rich ones also offer
// what bytes.Buffer, bufio.Writer and os.File do.
type (
	sinkW struct{ s *Sink }
	sinkC struct{ s *Sink }
	sinkX struct{ s *Sink }

	sinkWC struct {
		sinkW
		sinkC
	}
	sinkWX struct {
		sinkW
		sinkX
	}
	sinkWCX struct {
		sinkWC
		sinkX
	}
)

func (x sinkW) Write(p []byte) (int, error) { return x.s.write(p) }
func (x sinkC) Close() error                { return x.s.close() }
func (x sinkX) WriteString(p string) (int, error) {
	x.s.w.cover("stream-method", "WriteString")
	return x.s.write([]byte(p))
}
func (x sinkX) WriteByte(b byte) error {
	x.s.w.cover("stream-method", "WriteByte")
	_, err := x.s.write([]byte{b})
	return err
}
func (x sinkX) Read(p []byte) (int, error) {
	x.s.touches++
	return 0, io.EOF
}
func (x sinkX) Sync() error  { return x.s.sync() }
func (x sinkX) Flush() error { return x.s.sync() }
func (x sinkX) ReadFrom(r io.Reader) (n int64, err error) {
	x.s.w.cover("stream-method", "ReadFrom")
	b := make([]byte, 4096)
	for {
		k, rerr := r.Read(b)
		if k > 0 {
			m, err := x.s.write(b[:k])
			if n += int64(m); err != nil {
				return n, err
			}
		}
		if rerr == io.EOF {
			return n, nil
		} else if rerr != nil {
			return n, rerr
		}
	}
}
func (x sinkX) Seek(off int64, whence int) (int64, error) {
	at := x.s.base + int64(len(x.s.buf))
	if whence != io.SeekStart {
		off += at
	}
	if x.s.touches++; off != at {
		x.s.w.Fail("moved", "the writer's stream was moved from %d to %d", at, off)
	}
	return at, nil
}

// skipW leaves out the first n bytes, which somebody else wrote.
type skipW struct {
	sinkW
	n int
}

func (x *skipW) Write(p []byte) (int, error) {
	if k := min(x.n, len(p)); k > 0 {
		if x.n -= k; k == len(p) {
			return k, nil
		}
		n, err := x.s.write(p[k:])
		return k + n, err
	}
	return x.s.write(p)
}

// stdWriter hands the stream out as one of the types of the standard library
// which most callers use.
func (s *Sink) stdWriter() io.Writer {
	k := s.w.T.N(3)
	s.w.cover("std-sink", strconv.Itoa(k))
	if k == 2 {
		y := &skipW{sinkW{s}, int(s.base)}
		x := bufio.NewWriterSize(y, []int{16, 300, 4096}[s.w.T.N(3)])
		x.Write(make([]byte, s.base))
		s.w.after = append(s.w.after, func() { x.Flush() })
		return x
	}
	var r io.Writer
	var get func(from, to int) []byte
	// Other bytes may be there already.
	pre := make([]byte, s.base)
	for i := range pre {
		pre[i] = byte(i * 7)
	}
	if k == 0 {
		x := bytes.NewBuffer(append([]byte(nil), pre...))
		r, get = x, func(from, to int) []byte { return x.Bytes()[from:to] }
	} else {
		x := &strings.Builder{}
		x.Write(pre)
		r, get = x, func(from, to int) []byte { return []byte(x.String()[from:to]) }
	}
	done := len(pre)
	s.w.after = append(s.w.after, func() {
		s.w.Check(bytes.Equal(get(0, len(pre)), pre), "overwritten", "bytes that were on the stream before were changed")
		b := get(done, r.(interface{ Len() int }).Len())
		if done += len(b); len(b) > 0 {
			s.touches++
			s.writes++
			s.w.ev("write", int64(len(b)), int64(len(b)))
			s.accept(b)
		}
	})
	return r
}

func (s *Sink) Writer() io.Writer {
	s.base = 0
	if s.w.T.P(150) {
		s.base = int64(s.w.T.N(300))
	}
	if s.stdOK && !s.closable && s.w.T.P(150) {
		return s.stdWriter()
	}
	rich := s.w.T.P(200)
	if s.closable {
		if x := (sinkWC{sinkW{s}, sinkC{s}}); !rich {
			return x
		} else {
			return sinkWCX{x, sinkX{s}}
		}
	}
	if rich {
		return sinkWX{sinkW{s}, sinkX{s}}
	}
	return sinkW{s}
}
