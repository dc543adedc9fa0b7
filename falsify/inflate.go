package main

// An independent implementation of RFC 1951/1950/1952, written from the RFCs
// for use as the oracle.  It shares no code with the package under test.

import (
	"bytes"
	"encoding/binary"
	"hash/adler32"
	"hash/crc32"
)

type class int

const (
	clOK        class = iota // the input is a sequence of complete streams
	clTrunc                  // the input ends inside a stream
	clCorrupt                // the input is malformed
	clAmbiguous              // malformed in a way which the RFCs leave open, or both truncated and malformed
)

func (c class) String() string { return [...]string{"ok", "truncated", "corrupt", "ambiguous"}[c] }

type tok struct {
	Lit  byte
	Len  int // 0 for a literal
	Dist int
	Pos  int // position in the stream's output at which it starts
}

type oblk struct {
	Type        int // BTYPE
	Final       bool
	StartBit    int
	EndBit      int
	OutStart    int
	OutEnd      int
	Toks        []tok
	SX          []byte // 19 sizes, by symbol
	SLL, SD     []byte // 288 and 32 sizes
	NX, NLL, ND int
	StoredLen   int
}

type ohdr struct {
	Format                                 int // 1 raw, 2 zlib, 3 gzip
	Flags                                  byte
	XFL, OS                                byte
	MTime                                  uint32
	Extra                                  []byte
	HasExtra, HasName, HasComment, HasHCRC bool
	Name, Comment                          string
	CINFO                                  int
	FLevel                                 int
	FDict                                  bool
	DictID                                 uint32
	B0, B1                                 byte
}

type ostream struct {
	Start         int // byte offset
	HdrEnd        int
	DataEnd       int // byte offset after the final block
	End           int
	Hdr           ohdr
	Blocks        []oblk
	Out           []byte
	Done          bool
	MaxDist       int
	StoredPartial int // bytes at the end of Out from an incomplete stored block
}

type oresult struct {
	Class    class
	Streams  []ostream
	Out      []byte // everything decoded before the end or the error
	OutMin   int    // in ambiguous cases, only Out[:OutMin] is certain
	Why      string
	Consumed int
}

type bitr struct {
	p   []byte
	pos int // bit position
}

type oerr struct {
	c   class
	why string
}

func (b *bitr) left() int { return len(b.p)*8 - b.pos }

func (b *bitr) bits(n int) int {
	if b.left() < n {
		panic(oerr{clTrunc, "bits"})
	}
	v := 0
	for i := 0; i < n; i++ {
		v |= int(b.p[b.pos>>3]>>(uint(b.pos)&7)&1) << uint(i)
		b.pos++
	}
	return v
}

func (b *bitr) align() { b.pos = (b.pos + 7) &^ 7 }

func (b *bitr) byte() byte { return byte(b.bits(8)) }

func (b *bitr) bytes(n int) []byte {
	o := b.pos >> 3
	if b.left() < n*8 {
		panic(oerr{clTrunc, "bytes"})
	}
	b.pos += n * 8
	return b.p[o : o+n]
}

type ohuff struct {
	max      int
	sym      map[uint32]int // size<<16|code (MSB first)
	n        int
	kraft    int // in units of 2^-15
	complete bool
	over     bool
}

func mkhuff(sizes []byte) *ohuff {
	h := &ohuff{sym: map[uint32]int{}}
	var cnt [17]int
	for _, s := range sizes {
		if s != 0 {
			cnt[s]++
			h.n++
			h.kraft += 1 << (15 - s)
			if int(s) > h.max {
				h.max = int(s)
			}
		}
	}
	h.complete = h.kraft == 1<<15
	h.over = h.kraft > 1<<15
	code := 0
	var next [17]int
	for l := 1; l <= 15; l++ {
		code = (code + cnt[l-1]) << 1
		next[l] = code
	}
	for i, s := range sizes {
		if s != 0 {
			h.sym[uint32(s)<<16|uint32(next[s])] = i
			next[s]++
		}
	}
	return h
}

// read returns -1 if no code matches.
func (h *ohuff) read(b *bitr) int {
	if h.n == 0 {
		if b.left() == 0 {
			panic(oerr{clAmbiguous, "empty code at end of input"})
		}
		return -1
	}
	var code uint32
	start := b.pos
	for l := 1; l <= h.max; l++ {
		if b.left() < 1 {
			if !h.complete {
				panic(oerr{clAmbiguous, "incomplete code at end of input"})
			}
			b.pos = start
			panic(oerr{clTrunc, "symbol"})
		}
		code = code<<1 | uint32(b.bits(1))
		if s, ok := h.sym[uint32(l)<<16|code]; ok {
			return s
		}
	}
	return -1
}

var olenBase = [29]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
var olenExtra = [29]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
var odistBase = [30]int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
var odistExtra = [30]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
var oorder = [19]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}

var ofixLL, ofixD []byte

func init() {
	ofixLL = make([]byte, 288)
	for i := range ofixLL {
		switch {
		case i < 144:
			ofixLL[i] = 8
		case i < 256:
			ofixLL[i] = 9
		case i < 280:
			ofixLL[i] = 7
		default:
			ofixLL[i] = 8
		}
	}
	ofixD = bytes.Repeat([]byte{5}, 32)
}

func corrupt(b *bitr, why string) {
	// When the input also ends right here, "truncated" is just as true.
	if b.left() < 64 {
		panic(oerr{clAmbiguous, why + " (near end of input)"})
	}
	panic(oerr{clCorrupt, why})
}

func corruptNow(why string) { panic(oerr{clCorrupt, why}) }

type oinflate struct {
	b        *bitr
	dict     []byte
	winLimit int // the decoder's window size
	st       *ostream
	keepToks bool
	amb      bool // passed through something the RFC leaves open
}

func (d *oinflate) hist(dist int) (byte, bool) {
	o := len(d.st.Out) - dist
	if o >= 0 {
		return d.st.Out[o], true
	}
	o += len(d.dict)
	if o >= 0 {
		return d.dict[o], true
	}
	return 0, false
}

func (d *oinflate) block() bool {
	b := d.b
	var k oblk
	k.StartBit = b.pos
	k.OutStart = len(d.st.Out)
	d.st.Blocks = append(d.st.Blocks, k)
	kp := &d.st.Blocks[len(d.st.Blocks)-1]
	v := b.bits(3)
	kp.Final = v&1 != 0
	kp.Type = v >> 1
	switch kp.Type {
	case 0:
		b.align()
		n := int(b.byte())
		n |= int(b.byte()) << 8
		m := int(b.byte())
		m |= int(b.byte()) << 8
		if n^m != 0xffff {
			corruptNow("LEN/NLEN")
		}
		kp.StoredLen = n
		// A decoder may or may not deliver the available part of a
		// truncated stored block.
		if b.left() < n*8 {
			d.st.StoredPartial = b.left() / 8
			d.st.Out = append(d.st.Out, b.bytes(b.left()/8)...)
			panic(oerr{clTrunc, "stored"})
		}
		d.st.Out = append(d.st.Out, b.bytes(n)...)
	case 1:
		kp.SLL, kp.SD = ofixLL, ofixD
		d.huff(kp)
	case 2:
		d.trees(kp)
		d.huff(kp)
	default:
		corruptNow("BTYPE")
	}
	kp.EndBit = b.pos
	kp.OutEnd = len(d.st.Out)
	return kp.Final
}

func (d *oinflate) trees(k *oblk) {
	b := d.b
	v := b.bits(14)
	k.NLL, k.ND, k.NX = 257+v&31, 1+v>>5&31, 4+v>>10
	if k.NLL > 286 || k.ND > 30 {
		corruptNow("HLIT/HDIST")
	}
	k.SX = make([]byte, 19)
	for i := 0; i < k.NX; i++ {
		k.SX[oorder[i]] = byte(b.bits(3))
	}
	hx := mkhuff(k.SX)
	if hx.over {
		corruptNow("over-subscribed X")
	}
	if hx.n == 0 {
		corrupt(b, "no X codes")
	}
	if !hx.complete {
		d.amb = true
	}
	var l []byte
	for len(l) < k.NLL+k.ND {
		s := hx.read(b)
		switch {
		case s < 0:
			corrupt(b, "bad X code")
		case s < 16:
			l = append(l, byte(s))
		default:
			var n int
			var c byte
			switch s {
			case 16:
				if len(l) == 0 {
					corrupt(b, "repeat at start")
				}
				c = l[len(l)-1]
				n = 3 + b.bits(2)
			case 17:
				n = 3 + b.bits(3)
			case 18:
				n = 11 + b.bits(7)
			}
			if len(l)+n > k.NLL+k.ND {
				corruptNow("repeat too long")
			}
			for ; n > 0; n-- {
				l = append(l, c)
			}
		}
	}
	k.SLL = make([]byte, 288)
	k.SD = make([]byte, 32)
	copy(k.SLL, l[:k.NLL])
	copy(k.SD, l[k.NLL:])
}

func (d *oinflate) huff(k *oblk) {
	b := d.b
	ll, dd := mkhuff(k.SLL), mkhuff(k.SD)
	if ll.over || dd.over {
		corruptNow("over-subscribed")
	}
	if !ll.complete || (!dd.complete && dd.n > 1) || (dd.n == 1 && dd.max != 1) {
		d.amb = true
	}
	if ll.n == 0 || k.SLL[256] == 0 {
		d.amb = true
	}
	for {
		s := ll.read(b)
		switch {
		case s < 0:
			corrupt(b, "bad LL code")
		case s < 256:
			if d.keepToks {
				k.Toks = append(k.Toks, tok{Lit: byte(s), Pos: len(d.st.Out)})
			}
			d.st.Out = append(d.st.Out, byte(s))
		case s == 256:
			return
		case s > 285:
			corrupt(b, "LL 286")
		default:
			n := olenBase[s-257] + b.bits(olenExtra[s-257])
			ds := dd.read(b)
			if ds < 0 {
				corrupt(b, "bad D code")
			}
			if ds > 29 {
				corrupt(b, "D 30")
			}
			dist := odistBase[ds] + b.bits(odistExtra[ds])
			if _, ok := d.hist(dist); !ok {
				corruptNow("distance before start")
			}
			if dist > d.winLimit {
				panic(oerr{clAmbiguous, "distance beyond window"})
			}
			if dist > d.st.MaxDist {
				d.st.MaxDist = dist
			}
			if d.keepToks {
				k.Toks = append(k.Toks, tok{Len: n, Dist: dist, Pos: len(d.st.Out)})
			}
			for i := 0; i < n; i++ {
				c, _ := d.hist(dist)
				d.st.Out = append(d.st.Out, c)
			}
		}
		if len(d.st.Out) > 1<<24 {
			panic(oerr{clAmbiguous, "too big"})
		}
	}
}

// oracle decodes the input; format is 0 (auto), 1 raw, 2 zlib or 3 gzip.
func oracle(in []byte, format int, wbits int, dict []byte, keepToks bool) (res oresult) {
	b := &bitr{p: in}
	amb := false
	var cur *ostream
	defer func() {
		if e := recover(); e != nil {
			oe, ok := e.(oerr)
			if !ok {
				panic(e)
			}
			res.Class, res.Why = oe.c, oe.why
			if cur != nil {
				res.Out = append(res.Out, cur.Out...)
				res.Streams = append(res.Streams, *cur)
			}
			res.OutMin = len(res.Out)
			if cur != nil {
				res.OutMin -= cur.StoredPartial
			}
			if amb {
				res.Class = clAmbiguous
				res.OutMin = 0
			}
		}
		res.Consumed = (b.pos + 7) / 8
	}()
	for b.left() > 0 {
		cur = &ostream{Start: b.pos / 8}
		f := format
		if f == 0 {
			f = 1
			if b.left() >= 16 {
				p := in[b.pos/8:]
				if p[0] == 0x1f && p[1] == 0x8b {
					f = 3
				} else if p[0]&15 == 8 && (int(p[0])<<8|int(p[1]))%31 == 0 {
					f = 2
				}
			}
		}
		cur.Hdr.Format = f
		cur.Hdr.OS = 0xff
		ohead(b, &cur.Hdr, wbits, dict)
		cur.HdrEnd = b.pos / 8
		d := &oinflate{b: b, dict: dict, winLimit: 1 << uint(wbits), st: cur, keepToks: keepToks}
		func() {
			defer func() { amb = amb || d.amb }()
			for !d.block() {
			}
		}()
		b.align()
		cur.DataEnd = b.pos / 8
		switch f {
		case 2:
			p := b.bytes(4)
			if binary.BigEndian.Uint32(p) != adler32.Checksum(cur.Out) {
				corruptNow("adler32")
			}
		case 3:
			p := b.bytes(4)
			bad := binary.LittleEndian.Uint32(p) != crc32.ChecksumIEEE(cur.Out)
			if bad && b.left() < 32 {
				panic(oerr{clAmbiguous, "crc, then truncated"})
			}
			p = b.bytes(4)
			if bad || binary.LittleEndian.Uint32(p) != uint32(len(cur.Out)) {
				corruptNow("crc32/isize")
			}
		}
		cur.End = b.pos / 8
		cur.Done = true
		res.Out = append(res.Out, cur.Out...)
		res.Streams = append(res.Streams, *cur)
		cur = nil
	}
	res.Class = clOK
	if amb {
		res.Class = clAmbiguous
		res.OutMin = 0
	} else {
		res.OutMin = len(res.Out)
	}
	return
}

func ohead(b *bitr, h *ohdr, wbits int, dict []byte) {
	start := b.pos / 8
	switch h.Format {
	case 2:
		p := b.bytes(2)
		h.B0, h.B1 = p[0], p[1]
		if (int(p[0])<<8|int(p[1]))%31 != 0 {
			corruptNow("zlib check")
		}
		if p[0]&15 != 8 {
			corruptNow("zlib CM")
		}
		h.CINFO = int(p[0] >> 4)
		h.FLevel = int(p[1] >> 6)
		h.FDict = p[1]&0x20 != 0
		if 8+h.CINFO > wbits {
			corruptNow("zlib window")
		}
		if h.FDict {
			h.DictID = binary.BigEndian.Uint32(b.bytes(4))
			if dict == nil || h.DictID != adler32.Checksum(dict) {
				corruptNow("dictionary")
			}
		} else if dict != nil {
			corruptNow("no dictionary in stream")
		}
	case 3:
		// Identification errors may be reported before all ten bytes are there.
		if b.left() < 80 {
			p := b.p[start:]
			if (len(p) > 0 && p[0] != 0x1f) || (len(p) > 1 && p[1] != 0x8b) || (len(p) > 2 && p[2] != 8) || (len(p) > 3 && p[3]&0xe0 != 0) {
				panic(oerr{clAmbiguous, "short gzip header"})
			}
		}
		p := b.bytes(10)
		if p[0] != 0x1f || p[1] != 0x8b {
			corruptNow("gzip magic")
		}
		if p[2] != 8 {
			corruptNow("gzip CM")
		}
		h.Flags = p[3]
		if p[3]&0xe0 != 0 {
			corruptNow("gzip flags")
		}
		h.MTime = binary.LittleEndian.Uint32(p[4:])
		h.XFL, h.OS = p[8], p[9]
		if p[3]&4 != 0 {
			h.HasExtra = true
			n := binary.LittleEndian.Uint16(b.bytes(2))
			h.Extra = b.bytes(int(n))
		}
		strz := func() string {
			var s []byte
			for {
				c := b.bytes(1)[0]
				if c == 0 {
					return string(s)
				}
				s = append(s, c)
			}
		}
		if p[3]&8 != 0 {
			h.HasName = true
			h.Name = strz()
		}
		if p[3]&16 != 0 {
			h.HasComment = true
			h.Comment = strz()
		}
		if p[3]&2 != 0 {
			h.HasHCRC = true
			c := crc32.ChecksumIEEE(b.p[start : b.pos/8])
			if binary.LittleEndian.Uint16(b.bytes(2)) != uint16(c) {
				corruptNow("header crc")
			}
		}
	}
}
