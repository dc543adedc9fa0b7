package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"io"
	"io/fs"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	flate "github.com/chronos-tachyon/flate"
	fadler "github.com/chronos-tachyon/flate/internal/adler32"
	fcrc "github.com/chronos-tachyon/flate/internal/crc32"
)

var _ = hex.EncodeToString
var _ = math.MaxInt

// Opts are the options of one Reader or Writer; a nil field is not given.
type Opts struct {
	Format, Strategy, CLevel, MLevel, WBits *int
	Dict                                    []byte
	DictSet                                 bool
	Trace                                   bool
}

func ip(i int) *int { return &i }

func (o Opts) list(tr flate.Tracer) []flate.Option {
	var l []flate.Option
	if o.Format != nil {
		l = append(l, flate.WithFormat(flate.Format(*o.Format)))
	}
	if o.Strategy != nil {
		l = append(l, flate.WithStrategy(flate.Strategy(*o.Strategy)))
	}
	if o.CLevel != nil {
		l = append(l, flate.WithCompressLevel(flate.CompressLevel(*o.CLevel)))
	}
	if o.MLevel != nil {
		l = append(l, flate.WithMemoryLevel(flate.MemoryLevel(*o.MLevel)))
	}
	if o.WBits != nil {
		l = append(l, flate.WithWindowBits(flate.WindowBits(*o.WBits)))
	}
	if o.DictSet {
		l = append(l, flate.WithDictionary(o.dict()))
	}
	if tr != nil {
		l = append(l, flate.WithTracers(tr))
	}
	return l
}

func (o Opts) dict() []byte {
	if len(o.Dict) == 0 {
		return nil
	}
	return o.Dict
}

func val(p *int, d int) int {
	if p == nil {
		return d
	}
	return *p
}

// merge returns o overridden by n.
func (o Opts) merge(n Opts) Opts {
	if n.Format != nil {
		o.Format = n.Format
	}
	if n.Strategy != nil {
		o.Strategy = n.Strategy
	}
	if n.CLevel != nil {
		o.CLevel = n.CLevel
	}
	if n.MLevel != nil {
		o.MLevel = n.MLevel
	}
	if n.WBits != nil {
		o.WBits = n.WBits
	}
	if n.DictSet {
		o.DictSet, o.Dict = true, n.Dict
	}
	return o
}

type Rec struct {
	ID   [2]byte
	Data []byte
}

type Hdr struct {
	Name, Comment []byte
	MTimeSet      bool
	MTime         int64
	MTimeNano     int64
	DataType, OS  int
	Recs          []Rec
}

func (h Hdr) header() flate.Header {
	x := flate.Header{FileName: string(h.Name), Comment: string(h.Comment), DataType: flate.DataType(h.DataType), OSType: flate.OSType(h.OS)}
	if h.MTimeSet {
		x.LastModified = time.Unix(h.MTime, h.MTimeNano)
	}
	for _, r := range h.Recs {
		x.ExtraData.Records = append(x.ExtraData.Records, flate.ExtraDataRecord{ID: r.ID, Bytes: r.Data})
	}
	return x
}

// Op is one call on a Writer (or, for a Reader, of the history before a Reset).
type Op struct {
	Op   string // write, flush, close, header, reset, read
	Data []byte `json:",omitempty"`
	N    int    `json:",omitempty"`
	Hdr  *Hdr   `json:",omitempty"`
	Opts *Opts  `json:",omitempty"`
}

// Case is one self-contained experiment.
type Case struct {
	Kind   string
	Prop   string
	Index  int64
	Seed   int64
	Opts   Opts
	Input  []byte
	Chunks []int // what the underlying reader returns at most, in turn; 0 is allowed
	ErrAt  int   // the underlying reader fails after that many bytes; -1: never
	EOFNow bool  // the error comes together with the last bytes
	Reads  []int
	Ops    []Op
	FailAt int // the underlying writer fails after that many bytes; -1: never
	Mode   int
	Note   string
}

type fail struct {
	Prop string
	Msg  string
}

type fails []fail

func (f *fails) add(prop, format string, v ...interface{}) {
	*f = append(*f, fail{prop, fmt.Sprintf(format, v...)})
}

var errInjected = errors.New("injected error")

// ---- underlying reader and writer ----

type srcReader struct {
	p      []byte
	off    int
	chunks []int
	k      int
	errAt  int
	eofNow bool
	yield  *rand.Rand
	err    error
	zeros  int
}

func (s *srcReader) Read(p []byte) (int, error) {
	if s.yield != nil {
		switch s.yield.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(s.yield.Intn(30)) * time.Microsecond)
		}
	}
	end := len(s.p)
	err := io.EOF
	if s.errAt >= 0 && s.errAt <= end {
		end = s.errAt
		err = errInjected
		if s.err != nil {
			err = s.err
		}
	}
	n := len(p)
	if len(s.chunks) > 0 {
		c := s.chunks[s.k%len(s.chunks)]
		s.k++
		if c == 0 {
			s.zeros++
			if s.zeros > 3 {
				c = 1
				s.zeros = 0
			}
		}
		if n > c {
			n = c
		}
	}
	if n > end-s.off {
		n = end - s.off
	}
	copy(p, s.p[s.off:s.off+n])
	s.off += n
	if s.off == end && (n == 0 || s.eofNow) {
		if n == 0 && len(p) == 0 {
			return 0, nil
		}
		if s.off == end {
			return n, err
		}
	}
	return n, nil
}

type sinkWriter struct {
	p       []byte
	failAt  int
	mode    int // 1 full error, 2 short write with nil error, 3 panic never; flush/sync modes below
	calls   int
	after   int // calls after the failure
	failed  bool
	flushes int
	syncs   int
	failOp  int
	order   string
}

func (w *sinkWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
	}
	w.calls++
	if w.failAt >= 0 && len(w.p)+len(p) > w.failAt && w.mode <= 1 {
		n := w.failAt - len(w.p)
		if n < 0 {
			n = 0
		}
		if w.mode == 1 {
			n = 0
		}
		w.p = append(w.p, p[:n]...)
		w.failed = true
		return n, errInjected
	}
	w.p = append(w.p, p...)
	return len(p), nil
}

type flushSink struct{ *sinkWriter }

func (w flushSink) Flush() error {
	w.flushes++
	if w.failed {
		w.after++
	}
	w.order += "F"
	if w.mode == 2 && w.flushes > w.failAt {
		w.failed = true
		return errInjected
	}
	return nil
}

type syncSink struct{ *sinkWriter }

func (w syncSink) Sync() error {
	w.syncs++
	if w.failed {
		w.after++
	}
	w.order += "S"
	if w.mode == 3 && w.syncs > w.failAt {
		w.failed = true
		return errInjected
	}
	if w.mode == 4 {
		return &fs.PathError{Op: "sync", Path: "x", Err: syscall.EINVAL}
	}
	return nil
}

type bothSink struct {
	*sinkWriter
}

func (w bothSink) Flush() error { return flushSink{w.sinkWriter}.Flush() }
func (w bothSink) Sync() error  { return syncSink{w.sinkWriter}.Sync() }

// ---- events ----

type ev struct {
	E      flate.Event
	Header *flate.Header
}

type recorder struct {
	mu sync.Mutex
	l  []flate.Event
}

func (r *recorder) OnEvent(e flate.Event) {
	r.mu.Lock()
	// keep the contents as they are now
	if e.Header != nil {
		h := *e.Header
		e.Header = &h
	}
	if e.Trees != nil {
		t := *e.Trees
		t.CodeSizes = append(flate.SizeList(nil), t.CodeSizes...)
		t.LiteralLengthSizes = append(flate.SizeList(nil), t.LiteralLengthSizes...)
		t.DistanceSizes = append(flate.SizeList(nil), t.DistanceSizes...)
		e.Trees = &t
	}
	r.l = append(r.l, e)
	r.mu.Unlock()
}

func sizesEq(a flate.SizeList, b []byte) bool {
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y byte
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return false
		}
	}
	return true
}

// checkEvents compares the events of complete streams with the oracle's parse.
// in and out name which counters are which.
func checkEvents(f *fails, evs []flate.Event, streams []ostream, writer bool, hdrs []flate.Header) {
	k := 0
	var uncTot, cmpTot uint64
	next := func() *flate.Event {
		if k < len(evs) {
			k++
			return &evs[k-1]
		}
		return nil
	}
	for i := range streams {
		st := &streams[i]
		cmpLen := uint64(st.End - st.Start)
		hdrLen := uint64(st.HdrEnd - st.Start)
		want := func(t flate.EventType) *flate.Event {
			e := next()
			if e == nil {
				f.add("C14", "stream %d: %v missing", i+1, t)
				return nil
			}
			if e.Type != t {
				f.add("C14", "stream %d: event %d is %v, expected %v", i+1, k, e.Type, t)
				return nil
			}
			if e.NumStreams != uint(i+1) {
				f.add("C14", "stream %d: event %v has NumStreams %d", i+1, t, e.NumStreams)
			}
			return e
		}
		cnt := func(e *flate.Event, u, c uint64) {
			us, ut, cs, ct := e.InputBytesStream, e.InputBytesTotal, e.OutputBytesStream, e.OutputBytesTotal
			if !writer {
				us, ut, cs, ct = e.OutputBytesStream, e.OutputBytesTotal, e.InputBytesStream, e.InputBytesTotal
			}
			if us != u || ut != uncTot+u || cs != c || ct != cmpTot+c {
				f.add("C14", "stream %d: %v counters uncompressed %d/%d compressed %d/%d, expected %d/%d and %d/%d", i+1, e.Type, us, ut, cs, ct, u, uncTot+u, c, cmpTot+c)
			}
		}
		e := want(flate.StreamBeginEvent)
		if e == nil {
			return
		}
		e = want(flate.StreamHeaderEvent)
		if e == nil {
			return
		}
		if e.Header == nil {
			f.add("C14", "stream %d: StreamHeaderEvent without Header", i+1)
			return
		}
		if int(e.Format) != st.Hdr.Format {
			f.add("C14", "stream %d: format %v", i+1, e.Format)
		}
		cnt(e, 0, hdrLen)
		checkHdrEvent(f, e, st, writer)
		for j := range st.Blocks {
			b := &st.Blocks[j]
			for _, t := range []flate.EventType{flate.BlockBeginEvent, flate.BlockTreesEvent, flate.BlockEndEvent} {
				if t == flate.BlockTreesEvent && b.Type == 0 {
					continue
				}
				e = want(t)
				if e == nil {
					return
				}
				if e.Block == nil || e.Block.Type != flate.BlockType(b.Type+1) || e.Block.IsFinal != b.Final {
					f.add("C14", "stream %d block %d: %v says %+v, stream has type %d final %v", i+1, j, t, e.Block, b.Type, b.Final)
				}
				if t == flate.BlockTreesEvent {
					if e.Trees == nil || !sizesEq(e.Trees.LiteralLengthSizes, b.SLL) || !sizesEq(e.Trees.DistanceSizes, b.SD) {
						f.add("C14", "stream %d block %d: code sizes differ from those in the stream", i+1, j)
					} else if b.Type == 2 && (!sizesEq(e.Trees.CodeSizes, b.SX) || int(e.Trees.CodeCount) != b.NX || int(e.Trees.LiteralLengthCount) != b.NLL || int(e.Trees.DistanceCount) != b.ND) {
						f.add("C14", "stream %d block %d: code counts or code-length sizes differ from those in the stream", i+1, j)
					}
				}
			}
		}
		e = want(flate.StreamEndEvent)
		if e == nil {
			return
		}
		if e.Footer == nil || uint32(e.Footer.Adler32) != adler32.Checksum(st.Out) || uint32(e.Footer.CRC32) != crc32.ChecksumIEEE(st.Out) {
			f.add("C14", "stream %d: StreamEndEvent checksums %+v, expected %08x %08x", i+1, e.Footer, adler32.Checksum(st.Out), crc32.ChecksumIEEE(st.Out))
			f.add("C04", "stream %d: StreamEndEvent checksums %+v, expected %08x %08x", i+1, e.Footer, adler32.Checksum(st.Out), crc32.ChecksumIEEE(st.Out))
		}
		e = want(flate.StreamCloseEvent)
		if e == nil {
			return
		}
		cnt(e, uint64(len(st.Out)), cmpLen)
		uncTot += uint64(len(st.Out))
		cmpTot += cmpLen
	}
	if k != len(evs) {
		f.add("C14", "%d extra events, the first is %v", len(evs)-k, evs[k].Type)
	}
}

var osTable = []flate.OSType{flate.OSTypeFAT, flate.OSTypeAmiga, flate.OSTypeVMS, flate.OSTypeUnix, flate.OSTypeVMCMS, flate.OSTypeAtariTOS, flate.OSTypeHPFS, flate.OSTypeMacintosh, flate.OSTypeZSystem, flate.OSTypeCPM, flate.OSTypeTOPS20, flate.OSTypeNTFS, flate.OSTypeQDOS, flate.OSTypeAcornRISCOS}

func checkHdrEvent(f *fails, e *flate.Event, st *ostream, writer bool) {
	h, o := e.Header, &st.Hdr
	switch o.Format {
	case 2:
		if int(h.WindowBits) != o.CINFO+8 {
			f.add("C10", "StreamHeaderEvent.WindowBits %d, stream has CINFO %d", h.WindowBits, o.CINFO)
		}
		if !writer {
			want := []flate.CompressLevel{1, 2, flate.DefaultCompression, 9}[o.FLevel]
			if h.CompressLevel != want {
				f.add("C10", "StreamHeaderEvent.CompressLevel %d, stream has FLEVEL %d", h.CompressLevel, o.FLevel)
			}
		}
	case 3:
		if h.FileName != o.Name || h.Comment != o.Comment {
			f.add("C09", "StreamHeaderEvent name %q comment %q, stream has %q %q", h.FileName, h.Comment, o.Name, o.Comment)
		}
		var mt int64
		if !h.LastModified.IsZero() {
			mt = h.LastModified.Unix()
		}
		if mt != int64(o.MTime) {
			f.add("C09", "StreamHeaderEvent mtime %d, stream has %d", mt, o.MTime)
		}
		os := flate.OSTypeUnknown
		if int(o.OS) < len(osTable) {
			os = osTable[o.OS]
		}
		if h.OSType != os {
			f.add("C09", "StreamHeaderEvent OSType %d, stream has %d", h.OSType, o.OS)
		}
		recs := parseExtra(o.Extra)
		if !recsEq(h.ExtraData.Records, recs) {
			f.add("C09", "StreamHeaderEvent extra records %v, stream has %v", h.ExtraData.Records, recs)
		}
		dt := flate.BinaryData
		if o.Flags&1 != 0 {
			dt = flate.TextData
		}
		if h.DataType != dt {
			f.add("C09", "StreamHeaderEvent DataType %d, stream has FTEXT %d", h.DataType, o.Flags&1)
		}
		if !writer {
			want := flate.DefaultCompression
			if o.XFL == 2 {
				want = 9
			} else if o.XFL == 4 {
				want = 1
			}
			if h.CompressLevel != want {
				f.add("C09", "StreamHeaderEvent CompressLevel %d, stream has XFL %d", h.CompressLevel, o.XFL)
			}
		}
	}
}

func parseExtra(p []byte) (l []Rec) {
	for len(p) >= 4 {
		n := int(p[2]) | int(p[3])<<8
		if len(p) < 4+n {
			break
		}
		l = append(l, Rec{[2]byte{p[0], p[1]}, p[4 : 4+n]})
		p = p[4+n:]
	}
	return
}

func recsEq(a []flate.ExtraDataRecord, b []Rec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || !bytes.Equal(a[i].Bytes, b[i].Data) {
			return false
		}
	}
	return true
}

// ---- decode ----

func readAll(fr *flate.Reader, sizes []int, limit int) (out []byte, err error, calls int, empty int) {
	if len(sizes) == 0 {
		sizes = []int{4096}
	}
	for i := 0; ; i++ {
		p := make([]byte, sizes[i%len(sizes)])
		n, e := fr.Read(p)
		calls++
		if n < 0 || n > len(p) {
			return out, fmt.Errorf("Read returned %d for a buffer of %d", n, len(p)), calls, empty
		}
		out = append(out, p[:n]...)
		if n == 0 && e == nil && len(p) > 0 {
			empty++
		}
		if e != nil || len(out) > limit {
			return out, e, calls, empty
		}
	}
}

func isCorrupt(err error) bool {
	_, ok := err.(flate.CorruptInputError)
	return ok
}

func runDecode(c *Case) (f fails) {
	rec := &recorder{}
	in := c.Input
	src := &srcReader{p: in, chunks: c.Chunks, errAt: c.ErrAt, eofNow: c.EOFNow}
	if c.Mode == 1 {
		src.yield = rand.New(rand.NewSource(c.Seed))
	}
	if c.Mode == 2 {
		src.err = io.ErrUnexpectedEOF
	}
	fr := flate.NewReader(src, c.Opts.list(rec)...)
	format, wbits := val(c.Opts.Format, 0), val(c.Opts.WBits, 15)
	if wbits == 0 {
		wbits = 15
	}
	injected := c.ErrAt >= 0 && c.ErrAt <= len(in)
	eff := in
	if injected {
		eff = in[:c.ErrAt]
	}
	res := oracle(eff, format, wbits, c.Opts.dict(), false)
	out, err, _, empty := readAll(fr, c.Reads, 1<<25)
	// the error sticks
	for i := 0; i < 2; i++ {
		n, e := fr.Read(make([]byte, 7))
		if n != 0 || e != err {
			f.add("C07", "after error %v, Read returned %d, %v", err, n, e)
		}
	}
	if cerr := fr.Close(); cerr != nil {
		f.add("C20", "Close returned %v", cerr)
	}
	if empty != 0 {
		f.add("C20", "%d Reads with room returned 0, nil", empty)
	}
	if res.Class == clAmbiguous {
		// A prefix relation still holds as far as the oracle got.
		n := len(out)
		if n > len(res.Out) {
			n = len(res.Out)
		}
		if !bytes.Equal(out[:n], res.Out[:n]) {
			f.add("C01", "decoded bytes differ from the oracle's at %d", diffAt(out, res.Out))
		}
		return
	}
	kept := out
	if len(kept) > len(res.Out) || !bytes.Equal(kept, res.Out[:len(kept)]) {
		f.add("C01", "decoded bytes differ from the oracle's at %d (got %d bytes, oracle %d, class %v)", diffAt(kept, res.Out), len(kept), len(res.Out), res.Class)
		if len(out) != len(res.Out) {
			f.add("C20", "got %d bytes, expected %d", len(out), len(res.Out))
		}
	}
	switch {
	case res.Class == clOK && !injected:
		if err != io.EOF {
			f.add("C02", "valid input, but error %v after %d of %d bytes", err, len(out), len(res.Out))
			f.add("C07", "input ends exactly after a stream, but error %v", err)
		} else if len(out) < len(res.Out) {
			f.add("C01", "io.EOF after %d of %d bytes", len(out), len(res.Out))
			f.add("C02", "io.EOF after %d of %d bytes", len(out), len(res.Out))
			f.add("C20", "io.EOF after %d of %d bytes", len(out), len(res.Out))
			f.add("C07", "io.EOF after %d of %d bytes", len(out), len(res.Out))
		}
		rec.mu.Lock()
		checkEvents(&f, rec.l, res.Streams, false, nil)
		rec.mu.Unlock()
	case res.Class == clOK && injected, res.Class == clTrunc && injected:
		want := errInjected
		if c.Mode == 2 {
			want = io.ErrUnexpectedEOF
		}
		if err != want {
			f.add("C07", "underlying error after %d bytes, but Read reports %v", c.ErrAt, err)
		}
	case res.Class == clTrunc:
		if err != io.ErrUnexpectedEOF {
			f.add("C07", "truncated input, but Read reports %v", err)
			if err == io.EOF {
				f.add("C08", "truncated input, but Read reports %v", err)
			}
		}
	case res.Class == clCorrupt:
		if !isCorrupt(err) {
			f.add("C07", "corrupt input (%s), but Read reports %v", res.Why, err)
		}
		switch res.Why {
		case "adler32", "crc32/isize", "zlib check", "zlib CM", "zlib window", "dictionary", "no dictionary in stream", "gzip magic", "gzip CM", "gzip flags", "header crc":
			if !isCorrupt(err) {
				f.add("C08", "corrupt input (%s), but Read reports %v", res.Why, err)
				if res.Why == "zlib window" || strings.Contains(res.Why, "dictionary") {
					f.add("C10", "corrupt input (%s), but Read reports %v", res.Why, err)
				}
			}
		}
	}
	if len(kept) < res.OutMin {
		f.add("C07", "%v: only %d of the %d bytes before the error were delivered", err, len(kept), res.OutMin)
	}
	if len(kept) > len(res.Out) {
		f.add("C07", "%v: %d bytes were delivered, but there are only %d before the error", err, len(kept), len(res.Out))
	}
	return
}

func diffAt(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// ---- encode ----

type wmodel struct {
	data    []byte // all of it
	parts   [][]byte
	pending []byte
	open    bool // a stream is open
	any     bool // at least one stream was begun
}

func runEncode(c *Case) (f fails) {
	rec := &recorder{}
	sw := &sinkWriter{failAt: c.FailAt, mode: c.Mode & 7}
	var w io.Writer = sw
	kind := c.Mode >> 3 & 3
	switch kind {
	case 1:
		w = flushSink{sw}
	case 2:
		w = syncSink{sw}
	case 3:
		w = bothSink{sw}
	}
	fw := flate.NewWriter(w, c.Opts.list(rec)...)
	format := val(c.Opts.Format, 2)
	if format == 0 {
		format = 2
	}
	dict := c.Opts.dict()
	odict := dict
	var m wmodel
	var hdrs []flate.Header // the header in force when a stream began
	var cur flate.Header
	fullFlushAt := []int{} // positions in the stream's data
	fullFlushStream := []int{}
	closed := false
	faulty := c.FailAt >= 0 && sw.mode <= 3 && sw.mode != 4
	var sticky error
	begin := func() {
		if !m.open {
			m.open = true
			m.any = true
			m.parts = append(m.parts, nil)
			hdrs = append(hdrs, cur)
		}
	}
	for oi := range c.Ops {
		op := &c.Ops[oi]
		before := len(sw.p)
		calls := sw.calls
		wasFailed := sw.failed
		fl0, sy0 := sw.flushes, sw.syncs
		switch op.Op {
		case "header":
			h := op.Hdr.header()
			if e := fw.SetHeader(h); e == nil {
				cur = h
			}
			continue
		case "write":
			n, e := fw.Write(op.Data)
			if closed {
				if e != fs.ErrClosed || n != 0 || sw.calls != calls {
					f.add("C11", "Write after Close returned %d, %v and made %d writes", n, e, sw.calls-calls)
				}
				continue
			}
			if sw.failed {
				if sw.failed && !wasFailed {
					sticky = errInjected
				}
				if e != sticky {
					f.add("C17", "underlying writer failed, but Write returned %d, %v", n, e)
				}
				continue
			}
			if e != nil || n != len(op.Data) {
				f.add("C03", "Write(%d bytes) returned %d, %v", len(op.Data), n, e)
				return
			}
			if len(op.Data) > 0 {
				// The stream begins when data is there, perhaps lazily.
				begin()
				m.parts[len(m.parts)-1] = append(m.parts[len(m.parts)-1], op.Data...)
			}
		case "flush", "close":
			var e error
			ft := flate.FlushType(op.N)
			if op.Op == "close" {
				ft = flate.FinishFlush
				e = fw.Close()
			} else {
				e = fw.Flush(ft)
			}
			if closed {
				if e != fs.ErrClosed || sw.calls != calls {
					f.add("C11", "%s after Close returned %v and made %d writes", op.Op, e, sw.calls-calls)
				}
				continue
			}
			if op.Op == "close" {
				closed = true
			}
			if sw.failed {
				if !wasFailed {
					sticky = errInjected
				}
				if e != sticky {
					f.add("C17", "underlying writer failed, but %s returned %v", op.Op, e)
				}
				continue
			}
			if e != nil {
				f.add("C03", "%s returned %v", op.Op, e)
				return
			}
			if (kind&1 != 0 && sw.flushes == fl0) || (kind&2 != 0 && sw.syncs == sy0) {
				f.add("C12", "%s did not flush/sync the underlying writer", op.Op)
			}
			wasOpen := m.open
			if ft == flate.FinishFlush {
				if !m.any {
					begin()
				}
				m.open = false
			}
			if ft == flate.BlockFlush {
				break
			}
			res := oracle(sw.p, format, 15, odict, true)
			bad := res.Class != clTrunc && res.Class != clOK
			if ft == flate.FinishFlush && res.Class != clOK {
				bad = true
			}
			if bad {
				f.add("C12", "after %v the output so far is %v (%s)", ft, res.Class, res.Why)
				f.add("C03", "after %v the output so far is %v (%s)", ft, res.Class, res.Why)
				return
			}
			if !sameParts(&res, m.parts) {
				f.add("C12", "after %v the output so far decompresses to %d bytes in %d streams, expected %d in %d", ft, len(res.Out), len(res.Streams), total(m.parts), len(m.parts))
			}
			if wasOpen && (ft == flate.SyncFlush || ft == flate.FullFlush) && res.Class == clTrunc {
				st := &res.Streams[len(res.Streams)-1]
				// The last complete block is an empty stored one which ends the output.
				var last *oblk
				for i := range st.Blocks {
					if st.Blocks[i].EndBit != 0 {
						last = &st.Blocks[i]
					}
				}
				if last == nil || last.Type != 0 || last.StoredLen != 0 || last.Final || last.EndBit != 8*len(sw.p) {
					f.add("C12", "after %v the output does not end in an empty stored block", ft)
				}
				if ft == flate.FullFlush {
					fullFlushAt = append(fullFlushAt, len(m.parts[len(m.parts)-1]))
					fullFlushStream = append(fullFlushStream, len(m.parts)-1)
				}
			}
			_ = before
		}
	}
	if faulty {
		if sw.failed && sw.after != 0 {
			f.add("C17", "%d calls on the underlying writer after it failed", sw.after)
		}
		if sw.failed {
			return
		}
	}
	if !closed {
		return
	}
	// the complete output
	wb := val(c.Opts.WBits, 15)
	if wb == 0 {
		wb = 15
	}
	res := oracle(sw.p, format, 15, odict, true)
	if res.Class != clOK {
		f.add("C03", "the output is %v (%s)", res.Class, res.Why)
		if res.Why == "header crc" {
			f.add("C09", "the output is %v (%s)", res.Class, res.Why)
		}
		if strings.HasPrefix(res.Why, "zlib") || strings.Contains(res.Why, "dictionary") || res.Why == "adler32" {
			f.add("C10", "the output is %v (%s)", res.Class, res.Why)
		}
		if res.Why == "adler32" || res.Why == "crc32/isize" {
			f.add("C04", "the output is %v (%s)", res.Class, res.Why)
		}
		if res.Class == clTrunc {
			f.add("C11", "the output is %v (%s)", res.Class, res.Why)
			f.add("C12", "the output is %v (%s)", res.Class, res.Why)
		}
		if res.Why == "distance before start" {
			f.add("C19", "the output is %v (%s)", res.Class, res.Why)
		}
		f.add("C17", "no call failed, but the output is %v (%s)", res.Class, res.Why)
		return
	}
	if len(res.Out) != total(m.parts) || !bytes.Equal(res.Out, bytes.Join(m.parts, nil)) {
		f.add("C03", "the output decompresses to something else: %d bytes, expected %d, differs at %d", len(res.Out), total(m.parts), diffAt(res.Out, bytes.Join(m.parts, nil)))
	}
	if !sameParts(&res, m.parts) {
		f.add("C11", "the output has %d streams, expected %d (lengths %s)", len(res.Streams), len(m.parts), lens(&res, m.parts))
	}
	rec.mu.Lock()
	checkEvents(&f, rec.l, res.Streams, true, hdrs)
	rec.mu.Unlock()
	strategy, clevel := val(c.Opts.Strategy, 0), val(c.Opts.CLevel, 6)
	if clevel == -1 {
		clevel = 6
	}
	nfix := 0 // empty static blocks which PartialFlush is known to write
	_ = nfix
	for i := range res.Streams {
		st := &res.Streams[i]
		for j := range st.Blocks {
			b := &st.Blocks[j]
			if b.Final != (j == len(st.Blocks)-1) {
				f.add("C11", "stream %d block %d of %d: final %v", i+1, j, len(st.Blocks), b.Final)
			}
			empty := b.OutStart == b.OutEnd
			if clevel == 0 && b.Type != 0 && !(b.Type == 1 && empty) {
				f.add("C19", "level 0, but block %d has type %d", j, b.Type)
			}
			if strategy == 3 && b.Type == 2 {
				f.add("C19", "FixedStrategy, but block %d is dynamic", j)
			}
			for _, t := range b.Toks {
				if t.Len == 0 {
					continue
				}
				if t.Dist > 1<<uint(wb) {
					f.add("C19", "distance %d with WindowBits %d", t.Dist, wb)
				}
				if t.Dist > t.Pos+len(dict) {
					f.add("C19", "distance %d at position %d", t.Dist, t.Pos)
				}
				if t.Len < 3 || t.Len > 258 {
					f.add("C19", "length %d", t.Len)
				}
				if strategy == 1 || clevel == 0 {
					f.add("C19", "match with strategy %d level %d", strategy, clevel)
				}
				if strategy == 2 && t.Dist != 1 {
					f.add("C19", "HuffmanRLEStrategy, but distance %d", t.Dist)
				}
				for k := range fullFlushAt {
					if fullFlushStream[k] == i && t.Pos >= fullFlushAt[k] && t.Pos-t.Dist < fullFlushAt[k] {
						f.add("C12", "match at %d distance %d reaches before the FullFlush at %d", t.Pos, t.Dist, fullFlushAt[k])
					}
				}
			}
			if len(f) > 20 {
				return
			}
		}
		h := &st.Hdr
		switch format {
		case 2:
			fl := 3
			if strategy == 1 || strategy == 2 || clevel < 2 {
				fl = 0
			} else if clevel < 6 {
				fl = 1
			} else if clevel == 6 {
				fl = 2
			}
			if h.CINFO != wb-8 || h.FLevel != fl || h.FDict != (dict != nil) {
				f.add("C10", "zlib header %02x %02x with WindowBits %d level %d strategy %d dictionary %v", h.B0, h.B1, wb, clevel, strategy, dict != nil)
			}
		case 3:
			if i < len(hdrs) {
				checkGzipHeader(&f, h, &hdrs[i], strategy, clevel)
			}
		}
	}
	// round trip through the package's own Reader
	if c.Seed%4 == 0 || len(sw.p) < 3000 {
		rec2 := &recorder{}
		ro := Opts{Format: ip(format), Dict: c.Opts.Dict, DictSet: c.Opts.DictSet, WBits: ip(wb), MLevel: c.Opts.MLevel}
		fr := flate.NewReader(&srcReader{p: sw.p, errAt: -1}, ro.list(rec2)...)
		out, err, _, _ := readAll(fr, nil, 1<<26)
		fr.Close()
		if err != io.EOF || !bytes.Equal(out, res.Out) {
			f.add("C02", "valid input (written by Writer), but error %v after %d of %d bytes", err, len(out), len(res.Out))
			if bytes.HasPrefix(res.Out, out) == false {
				f.add("C01", "decoded bytes differ at %d", diffAt(out, res.Out))
			}
		} else {
			rec2.mu.Lock()
			checkEvents(&f, rec2.l, res.Streams, false, nil)
			rec2.mu.Unlock()
		}
	}
	return
}

func checkGzipHeader(f *fails, h *ohdr, want *flate.Header, strategy, clevel int) {
	if h.Name != want.FileName || h.Comment != want.Comment {
		f.add("C09", "gzip header has name %q comment %q, expected %q %q", h.Name, h.Comment, want.FileName, want.Comment)
	}
	var mt uint32
	if !want.LastModified.IsZero() {
		mt = uint32(want.LastModified.Unix())
	}
	if h.MTime != mt {
		f.add("C09", "gzip header has mtime %d, expected %d", h.MTime, mt)
	}
	os := want.OSType
	if os == flate.OSTypeUnknown {
		os = flate.OSTypeUnix
	}
	if int(h.OS) >= len(osTable) || osTable[h.OS] != os {
		f.add("C09", "gzip header has OS %d, expected %v", h.OS, os)
	}
	var l []Rec
	for _, r := range want.ExtraData.Records {
		l = append(l, Rec{r.ID, r.Bytes})
	}
	got := parseExtra(h.Extra)
	same := len(got) == len(l)
	n := 0
	for i := 0; same && i < len(l); i++ {
		same = got[i].ID == l[i].ID && bytes.Equal(got[i].Data, l[i].Data)
		n += 4 + len(l[i].Data)
	}
	if !same || n != len(h.Extra) {
		f.add("C09", "gzip header has extra %x, expected %v", h.Extra, l)
	}
	if !h.HasHCRC {
		f.add("C09", "gzip header has no CRC-16")
	}
	if want.DataType == flate.TextData && h.Flags&1 == 0 || want.DataType == flate.BinaryData && h.Flags&1 != 0 {
		f.add("C09", "gzip FTEXT %d for data type %v", h.Flags&1, want.DataType)
	}
	xfl := byte(0)
	if strategy == 1 || strategy == 2 || clevel < 2 {
		xfl = 4
	} else if clevel == 9 {
		xfl = 2
	}
	if h.XFL != xfl {
		f.add("C09", "gzip XFL %d with strategy %d level %d", h.XFL, strategy, clevel)
	}
}

func total(p [][]byte) (n int) {
	for _, q := range p {
		n += len(q)
	}
	return
}

func lens(res *oresult, parts [][]byte) string {
	s := ""
	for i := range res.Streams {
		s += fmt.Sprintf("%d ", len(res.Streams[i].Out))
	}
	s += "vs "
	for _, p := range parts {
		s += fmt.Sprintf("%d ", len(p))
	}
	return s
}

func sameParts(res *oresult, parts [][]byte) bool {
	if len(res.Streams) != len(parts) {
		return false
	}
	for i := range parts {
		if !bytes.Equal(res.Streams[i].Out, parts[i]) {
			return false
		}
	}
	return true
}

// ---- reset ----

type outcome struct {
	Out  []byte
	Errs []string
	Evs  []flate.Event
}

func errs(e error) string {
	if e == nil {
		return "nil"
	}
	return fmt.Sprintf("%T %v", e, e)
}

func readerOutcome(fr *flate.Reader, c *Case, rec *recorder) (o outcome) {
	out, err, _, _ := readAll(fr, c.Reads, 1<<25)
	o.Out = out
	if ce, ok := err.(flate.CorruptInputError); ok {
		o.Errs = append(o.Errs, fmt.Sprintf("corrupt %d %d %s", ce.OffsetTotal, ce.OffsetStream, ce.Problem))
	} else {
		o.Errs = append(o.Errs, errs(err))
	}
	n, err := fr.Read(make([]byte, 3))
	o.Errs = append(o.Errs, fmt.Sprint(n, errs(err)))
	fr.Close()
	rec.mu.Lock()
	o.Evs = append(o.Evs, rec.l...)
	rec.mu.Unlock()
	return
}

func evsEq(a, b []flate.Event) (int, bool) {
	for i := 0; i < len(a) && i < len(b); i++ {
		if !reflect.DeepEqual(a[i], b[i]) {
			return i, false
		}
	}
	return len(a), len(a) == len(b)
}

// switchTracer lets one recorder be exchanged for another.
type switchTracer struct {
	mu sync.Mutex
	r  *recorder
}

func (s *switchTracer) OnEvent(e flate.Event) {
	s.mu.Lock()
	r := s.r
	s.mu.Unlock()
	r.OnEvent(e)
}

func runResetReader(c *Case) (f fails) {
	// Ops: a history of reads/closes/resets on earlier inputs, then a reset
	// onto Input with the options in the last op.
	st := &switchTracer{r: &recorder{}}
	first := c.Ops[0]
	opts := c.Opts
	fr := flate.NewReader(&srcReader{p: first.Data, chunks: c.Chunks, errAt: first.N - 1}, opts.list(st)...)
	for _, op := range c.Ops[1:] {
		switch op.Op {
		case "read":
			left := op.N
			for left > 0 {
				n := left
				if n > 100 {
					n = 100
				}
				m, e := fr.Read(make([]byte, n))
				if e != nil || m == 0 {
					break
				}
				left -= m
			}
		case "close":
			fr.Close()
		case "reset":
			o := Opts{}
			if op.Opts != nil {
				o = *op.Opts
			}
			opts = opts.merge(o)
			fr.Reset(&srcReader{p: op.Data, chunks: c.Chunks, errAt: op.N - 1}, o.list(nil)...)
		case "yield":
			runtime.Gosched()
			time.Sleep(time.Duration(op.N) * time.Microsecond)
		}
	}
	o := Opts{}
	if last := c.Ops[len(c.Ops)-1]; last.Op == "final" && last.Opts != nil {
		o = *last.Opts
	}
	opts = opts.merge(o)
	fr.Reset(&srcReader{p: c.Input, chunks: c.Chunks, errAt: c.ErrAt, eofNow: c.EOFNow}, o.list(nil)...)
	nr := &recorder{}
	st.mu.Lock()
	st.r = nr
	st.mu.Unlock()
	got := readerOutcome(fr, c, nr)
	rr := &recorder{}
	fresh := flate.NewReader(&srcReader{p: c.Input, chunks: c.Chunks, errAt: c.ErrAt, eofNow: c.EOFNow}, opts.list(rr)...)
	want := readerOutcome(fresh, c, rr)
	if !bytes.Equal(got.Out, want.Out) {
		f.add("C15", "after Reset the Reader gives %d bytes, a new one %d; they differ at %d", len(got.Out), len(want.Out), diffAt(got.Out, want.Out))
	}
	if !reflect.DeepEqual(got.Errs, want.Errs) {
		f.add("C15", "after Reset the Reader reports %q, a new one %q", got.Errs, want.Errs)
	}
	if i, ok := evsEq(got.Evs, want.Evs); !ok {
		f.add("C15", "after Reset the Reader's events differ from a new one's at %d (%d and %d events)", i, len(got.Evs), len(want.Evs))
	}
	if fr.Format() != fresh.Format() || fr.MemoryLevel() != fresh.MemoryLevel() || fr.WindowBits() != fresh.WindowBits() || !bytes.Equal(fr.Dict(), fresh.Dict()) {
		f.add("C13", "after Reset the Reader's options differ from a new one's")
		f.add("C15", "after Reset the Reader's options differ from a new one's")
	}
	return
}

func writerOps(fw *flate.Writer, ops []Op) (e []string) {
	for _, op := range ops {
		switch op.Op {
		case "header":
			e = append(e, errs(fw.SetHeader(op.Hdr.header())))
		case "write":
			n, err := fw.Write(op.Data)
			e = append(e, fmt.Sprint(n, errs(err)))
		case "flush":
			e = append(e, errs(fw.Flush(flate.FlushType(op.N))))
		case "close":
			e = append(e, errs(fw.Close()))
		}
	}
	return
}

func runResetWriter(c *Case) (f fails) {
	st := &switchTracer{r: &recorder{}}
	opts := c.Opts
	s0 := &sinkWriter{failAt: c.FailAt, mode: c.Mode}
	fw := flate.NewWriter(s0, opts.list(st)...)
	split := 0
	var hdr *Op
	for i, op := range c.Ops {
		if op.Op == "reset" {
			split = i
		}
	}
	// history
	for i := 0; i < split; i++ {
		op := c.Ops[i]
		if op.Op == "reset" {
			o := Opts{}
			if op.Opts != nil {
				o = *op.Opts
			}
			fw.Close()
			opts = opts.merge(o)
			fw.Reset(&sinkWriter{failAt: -1}, o.list(nil)...)
			continue
		}
		if op.Op == "header" {
			x := op
			if flate.NewWriter(io.Discard).SetHeader(op.Hdr.header()) == nil {
				hdr = &x
			}
		}
		writerOps(fw, []Op{op})
	}
	o := Opts{}
	if c.Ops[split].Opts != nil {
		o = *c.Ops[split].Opts
	}
	opts = opts.merge(o)
	w1, w2 := &sinkWriter{failAt: -1}, &sinkWriter{failAt: -1}
	fw.Reset(w1, o.list(nil)...)
	nr, rr := &recorder{}, &recorder{}
	st.mu.Lock()
	st.r = nr
	st.mu.Unlock()
	fresh := flate.NewWriter(w2, opts.list(rr)...)
	if hdr != nil {
		writerOps(fresh, []Op{*hdr})
	}
	got := writerOps(fw, c.Ops[split+1:])
	want := writerOps(fresh, c.Ops[split+1:])
	if !bytes.Equal(w1.p, w2.p) {
		f.add("C15", "after Reset the Writer writes %d bytes, a new one %d; they differ at %d", len(w1.p), len(w2.p), diffAt(w1.p, w2.p))
	}
	if !reflect.DeepEqual(got, want) {
		f.add("C15", "after Reset the Writer's calls return %q, a new one's %q", got, want)
	}
	if i, ok := evsEq(nr.l, rr.l); !ok {
		f.add("C15", "after Reset the Writer's events differ from a new one's at %d (%d and %d events)", i, len(nr.l), len(rr.l))
	}
	if fw.Format() != fresh.Format() || fw.MemoryLevel() != fresh.MemoryLevel() || fw.WindowBits() != fresh.WindowBits() || !bytes.Equal(fw.Dict(), fresh.Dict()) ||
		fw.Strategy() != fresh.Strategy() || fw.CompressLevel() != fresh.CompressLevel() || fw.Method() != fresh.Method() {
		f.add("C13", "after Reset the Writer's options differ from a new one's")
		f.add("C15", "after Reset the Writer's options differ from a new one's")
	}
	return
}

// ---- checksums ----

func runChecksum(c *Case) (f fails) {
	p := c.Input
	var a fadler.Hash
	var k fcrc.Hash
	a.Reset()
	k.Reset()
	i := 0
	for _, n := range append(c.Chunks, len(p)) {
		if i+n > len(p) {
			n = len(p) - i
		}
		m, e := a.Write(p[i : i+n])
		m2, e2 := k.Write(p[i : i+n])
		if m != n || e != nil || m2 != n || e2 != nil {
			f.add("C04", "Write returned %d, %v and %d, %v", m, e, m2, e2)
		}
		i += n
		if a.Sum32() != adler32.Checksum(p[:i]) || k.Sum32() != crc32.ChecksumIEEE(p[:i]) {
			f.add("C04", "after %d bytes: Adler-32 %08x, expected %08x; CRC-32 %08x, expected %08x", i, a.Sum32(), adler32.Checksum(p[:i]), k.Sum32(), crc32.ChecksumIEEE(p[:i]))
			return
		}
	}
	if fadler.Checksum(p) != adler32.Checksum(p) {
		f.add("C04", "Checksum %08x, expected %08x", fadler.Checksum(p), adler32.Checksum(p))
	}
	if fcrc.Update(0, p) != crc32.ChecksumIEEE(p) {
		f.add("C04", "crc32.Update %08x, expected %08x", fcrc.Update(0, p), crc32.ChecksumIEEE(p))
	}
	if u, w := fcrc.Update(uint32(c.Seed), p), crc32.Update(uint32(c.Seed), crc32.IEEETable, p); u != w {
		f.add("C04", "crc32.Update(%08x) %08x, expected %08x", uint32(c.Seed), u, w)
	}
	if s := a.Sum([]byte("x")); !bytes.Equal(s, binary.BigEndian.AppendUint32([]byte("x"), adler32.Checksum(p))) {
		f.add("C04", "adler32 Sum %x", s)
	}
	if s := k.Sum([]byte("x")); !bytes.Equal(s, binary.BigEndian.AppendUint32([]byte("x"), crc32.ChecksumIEEE(p))) {
		f.add("C04", "crc32 Sum %x", s)
	}
	return
}

// ---- extra data ----

func runExtra(c *Case) (f fails) {
	defer func() {
		if e := recover(); e != nil {
			f.add("C16", "panic: %v", e)
		}
	}()
	if c.Mode == 0 {
		var x flate.ExtraData
		x.Records = []flate.ExtraDataRecord{{ID: [2]byte{1, 2}, Bytes: []byte("old")}}
		x.Parse(append([]byte(nil), c.Input...))
		if want := parseExtra(c.Input); !recsEq(x.Records, want) {
			f.add("C16", "Parse gives %v, expected %v", x.Records, want)
		}
		return
	}
	h := c.Ops[0].Hdr.header()
	raw := h.ExtraData.AsBytes()
	var want []byte
	for _, r := range c.Ops[0].Hdr.Recs {
		want = append(want, r.ID[0], r.ID[1], byte(len(r.Data)), byte(len(r.Data)>>8))
		want = append(want, r.Data...)
	}
	if !bytes.Equal(raw, want) {
		f.add("C16", "AsBytes gives %d bytes, expected %d; they differ at %d", len(raw), len(want), diffAt(raw, want))
	}
	var y flate.ExtraData
	y.Parse(raw)
	if !recsEq(y.Records, c.Ops[0].Hdr.Recs) {
		f.add("C16", "Parse(AsBytes(x)) differs from x")
	}
	return
}

// ---- SetHeader ----

func acceptable(h flate.Header) bool {
	if len(h.FileName) > 255 || strings.ContainsAny(h.FileName, "\x00/\\") {
		return false
	}
	if len(h.Comment) > 255 || strings.Contains(h.Comment, "\x00") {
		return false
	}
	if !h.LastModified.IsZero() {
		if s := h.LastModified.Unix(); s < 0 || s > math.MaxUint32 {
			return false
		}
	}
	if h.OSType > flate.OSTypeAcornRISCOS {
		return false
	}
	n := 0
	for _, r := range h.ExtraData.Records {
		n += 4 + len(r.Bytes)
	}
	return n <= 65535
}

func runSetHeader(c *Case) (f fails) {
	defer func() {
		if e := recover(); e != nil {
			f.add("C18", "panic: %v", e)
			f.add("C03", "panic: %v", e)
		}
	}()
	sw := &sinkWriter{failAt: -1}
	fw := flate.NewWriter(sw, flate.WithFormat(flate.GZIPFormat))
	var cur flate.Header
	for _, op := range c.Ops {
		h := op.Hdr.header()
		err := fw.SetHeader(h)
		if (err == nil) != acceptable(h) {
			f.add("C18", "SetHeader returned %v for a header which is acceptable: %v", err, acceptable(h))
		}
		if err == nil {
			cur = h
		}
	}
	_, _ = fw.Write(c.Input)
	if err := fw.Close(); err != nil {
		f.add("C18", "Close: %v", err)
	}
	res := oracle(sw.p, 3, 15, nil, false)
	if res.Class != clOK || len(res.Streams) != 1 {
		f.add("C18", "the output is %v (%s)", res.Class, res.Why)
		f.add("C09", "the output is %v (%s)", res.Class, res.Why)
		return
	}
	var g fails
	checkGzipHeader(&g, &res.Streams[0].Hdr, &cur, 0, 6)
	for _, x := range g {
		f.add("C18", "not the header in force: %s", x.Msg)
		f.add("C09", "%s", x.Msg)
	}
	return
}

// ---- schedules ----

func runSchedule(c *Case) (f fails) {
	res := oracle(c.Input, val(c.Opts.Format, 0), 15, c.Opts.dict(), false)
	if res.Class != clOK {
		return // a raw stream which looks like another format
	}
	chunks := append([]int(nil), c.Chunks...)
	for i := range chunks {
		chunks[i] += len(c.Input) / 3000
	}
	src := &srcReader{p: c.Input, chunks: chunks, errAt: -1, yield: rand.New(rand.NewSource(c.Seed))}
	fr := flate.NewReader(src, c.Opts.list(nil)...)
	n := c.Mode & 7
	if n == 0 {
		n = 1
	}
	closer := c.Mode&8 != 0
	early := c.Mode&16 != 0 // the readers go away before the end, so that the buffers fill up
	type got struct {
		chunks [][]byte
		err    error
	}
	res2 := make([]got, n)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(c.Seed + int64(g)))
			for k := 0; ; k++ {
				if early && k > r.Intn(3) {
					return
				}
				// keep the number of hand-offs, which are slow, in bounds
				p := make([]byte, c.Reads[r.Intn(len(c.Reads))]+len(res.Out)/4000)
				m, e := fr.Read(p)
				if m > 0 {
					res2[g].chunks = append(res2[g].chunks, p[:m])
				}
				if e != nil {
					res2[g].err = e
					return
				}
				if r.Intn(3) == 0 {
					runtime.Gosched()
				}
				if r.Intn(8) == 0 {
					time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
				}
			}
		}(g)
	}
	if closer && !early {
		time.Sleep(time.Duration(c.FailAt) * time.Microsecond)
		fr.Close()
	}
	wg.Wait()
	if early {
		time.Sleep(time.Duration(c.FailAt*10) * time.Microsecond)
	}
	fr.Close()
	// every returned chunk is a piece of the output, and together they are all of it
	var cnt, want [256]int
	tot := 0
	for g := range res2 {
		pos := 0
		for _, ch := range res2[g].chunks {
			tot += len(ch)
			for _, b := range ch {
				cnt[b]++
			}
			// one caller's chunks come in increasing order
			if n == 1 {
				if !bytes.HasPrefix(res.Out[pos:], ch) {
					f.add("C20", "Read returned bytes out of order at %d", pos)
					return
				}
				pos += len(ch)
			} else {
				i := bytes.Index(res.Out[pos:], ch)
				if i < 0 {
					f.add("C20", "a concurrent Read returned a chunk of %d bytes which is not in the output after %d", len(ch), pos)
					return
				}
				pos += i + len(ch)
			}
		}
	}
	if !closer && !early {
		for _, b := range res.Out {
			want[b]++
		}
		if cnt != want {
			f.add("C20", "%d Reads callers got %d bytes in all, expected %d", n, tot, len(res.Out))
		}
		for g := range res2 {
			if res2[g].err != io.EOF {
				f.add("C20", "a Read ended with %v", res2[g].err)
			}
		}
	} else if tot > len(res.Out) {
		f.add("C20", "%d bytes of %d", tot, len(res.Out))
	}
	return
}

var _ = json.Marshal

func runCase(c *Case) (f fails) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			msg := fmt.Sprintf("panic: %v\n%s", e, buf)
			for _, p := range panicProps[c.Kind] {
				f.add(p, "%s", msg)
			}
		}
	}()
	switch c.Kind {
	case "decode":
		return runDecode(c)
	case "encode":
		return runEncode(c)
	case "resetr":
		return runResetReader(c)
	case "resetw":
		return runResetWriter(c)
	case "checksum":
		return runChecksum(c)
	case "extra":
		return runExtra(c)
	case "sethdr":
		return runSetHeader(c)
	case "schedule":
		return runSchedule(c)
	case "enum":
		return runEnum(c)
	case "options":
		return runOptions(c)
	}
	panic("kind " + c.Kind)
}

// which properties a panic or a hang in such a case breaks
var panicProps = map[string][]string{
	"decode":   {"C05", "C01", "C02", "C07", "C08", "C09", "C10", "C14", "C20"},
	"encode":   {"C03", "C09", "C10", "C11", "C12", "C14", "C17", "C19"},
	"resetr":   {"C15", "C05"},
	"resetw":   {"C15", "C03"},
	"checksum": {"C04"},
	"extra":    {"C16"},
	"sethdr":   {"C18", "C09"},
	"schedule": {"C20", "C05"},
	"enum":     {"C13"},
	"options":  {"C13"},
}
