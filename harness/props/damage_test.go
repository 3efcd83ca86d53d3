package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime"
	"testing"

	. "vibeverif/core"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// Damage is one change to the bytes of a file. Positions that depend on the
// file are given symbolically, so that a case stays meaningful when shrunk.
type Damage struct {
	// Kind: field, byte, truncate, append, copy, zero
	Kind  string `json:"kind"`
	Field string `json:"field,omitempty"` // see fieldAt
	Index int    `json:"index,omitempty"` // block of a field
	Off   int    `json:"off,omitempty"`
	Len   int    `json:"len,omitempty"`
	From  int    `json:"from,omitempty"`
	// Base of a field's new value: abs, orig, size, magic
	Base  string `json:"base,omitempty"`
	Delta int64  `json:"delta,omitempty"`
	Bytes []byte `json:"bytes,omitempty"`
}

// DamageCase is a file and changes to it.
type DamageCase struct {
	File    FileSpec `json:"file"`
	Raw     []byte   `json:"raw,omitempty"` // used instead of File when UseRaw
	UseRaw  bool     `json:"useraw,omitempty"`
	Damages []Damage `json:"damages"`
}

// fields by name: offset within their structure and width.
var headerFields = map[string][2]int{"magic": {0, 8}, "version": {8, 4}, "coltype": {12, 4}, "blockcount": {16, 8}, "target": {24, 4}, "compression": {28, 4}, "encoding": {32, 4}, "created": {36, 8}, "bitmapoff": {44, 8}, "bitmapsize": {52, 8}}
var entryFields = map[string][2]int{"e.offset": {0, 8}, "e.size": {8, 4}, "e.minid": {12, 8}, "e.maxid": {20, 8}, "e.min": {28, 8}, "e.max": {36, 8}, "e.sum": {44, 8}, "e.count": {52, 4}}
var layoutFields = map[string][2]int{"l.idoff": {0, 4}, "l.idsize": {4, 4}, "l.valoff": {8, 4}, "l.valsize": {12, 4}}
var trailerFields = map[string][2]int{"t.footersize": {0, 8}, "t.checksum": {8, 8}, "t.magic": {16, 8}}

var fieldNames = []string{"magic", "version", "coltype", "blockcount", "target", "compression", "encoding", "bitmapoff", "bitmapsize", "bitmaplen", "indexcount",
	"e.offset", "e.size", "e.minid", "e.maxid", "e.min", "e.max", "e.sum", "e.count", "l.idoff", "l.idsize", "l.valoff", "l.valsize", "t.footersize", "t.checksum", "t.magic"}

// fieldAt locates a field in the undamaged file.
func fieldAt(p *Parsed, name string, idx int) (off, width int, ok bool) {
	if f, in := headerFields[name]; in {
		return f[0], f[1], true
	}
	if f, in := trailerFields[name]; in {
		return int(p.Len) - 24 + f[0], f[1], true
	}
	switch name {
	case "bitmaplen":
		return int(p.BitmapOff), 4, true
	case "indexcount":
		return int(p.FooterStart), 4, true
	}
	if len(p.Blocks) == 0 {
		return 0, 0, false
	}
	idx %= len(p.Blocks)
	if f, in := entryFields[name]; in {
		return int(p.FooterStart) + 4 + idx*56 + f[0], f[1], true
	}
	if f, in := layoutFields[name]; in {
		return int(p.Blocks[idx].Offset) + 64 + f[0], f[1], true
	}
	return 0, 0, false
}

func applyDamage(orig []byte, p *Parsed, ds []Damage) []byte {
	b := append([]byte(nil), orig...)
	le := binary.LittleEndian
	for _, d := range ds {
		switch d.Kind {
		case "field":
			if p == nil {
				continue
			}
			off, w, ok := fieldAt(p, d.Field, d.Index)
			if !ok || off+w > len(b) {
				continue
			}
			var base uint64
			switch d.Base {
			case "orig":
				if w == 8 {
					base = le.Uint64(orig[off:])
				} else {
					base = uint64(le.Uint32(orig[off:]))
				}
			case "size":
				base = uint64(len(b))
			case "magic":
				base = Magic
			case "page":
				base = 4096
			}
			v := base + uint64(d.Delta)
			if w == 8 {
				le.PutUint64(b[off:], v)
			} else {
				le.PutUint32(b[off:], uint32(v))
			}
		case "byte":
			if len(b) > 0 && len(d.Bytes) > 0 {
				copy(b[d.Off%len(b):], d.Bytes)
			}
		case "rbyte": // counted from the end
			if len(b) > 0 && len(d.Bytes) > 0 {
				copy(b[len(b)-1-d.Off%len(b):], d.Bytes)
			}
		case "truncate":
			if len(b) > 0 {
				b = b[:d.Off%(len(b)+1)]
			}
		case "rtruncate":
			b = b[:max(0, len(b)-d.Off)]
		case "append":
			b = append(b, d.Bytes...)
		case "copy":
			if len(b) > 0 {
				from, to := d.From%len(b), d.Off%len(b)
				n := min(d.Len, len(b)-from, len(b)-to)
				copy(b[to:to+n], append([]byte(nil), b[from:from+n]...))
			}
		case "cut": // remove bytes from the middle
			if len(b) > 0 {
				at := d.Off % len(b)
				n := min(d.Len, len(b)-at)
				b = append(b[:at:at], b[at+n:]...)
			}
		}
	}
	return b
}

var deltas = []int64{0, 1, -1, 2, -2, 3, 4, 7, 8, -8, 15, 16, -16, 17, 23, 24, -24, 55, 56, 63, 64, -64, 79, 80, -80, 81, 4096, -4096, 127, 128, 255, 256, 65535, 65536,
	math.MaxInt32, math.MaxInt32 - 16, math.MaxInt32 - 15, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 - 16, math.MaxUint32 - 15, math.MaxUint32 + 1, -math.MaxUint32,
	1 << 40, 1 << 48, 1 << 62, math.MaxInt64, math.MaxInt64 - 64, math.MaxInt64 - 63, math.MaxInt64 - 4, math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 64}

func genDamage(t *rapid.T) Damage {
	d := Damage{Kind: rapid.SampledFrom([]string{"field", "field", "field", "field", "byte", "rbyte", "truncate", "rtruncate", "append", "copy", "cut"}).Draw(t, "kind")}
	raw := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}), rapid.Byte()), 1, 12)
	off := rapid.OneOf(rapid.IntRange(0, 200), rapid.IntRange(0, 200), rapid.IntRange(4096, 4300), rapid.IntRange(0, 20000))
	switch d.Kind {
	case "field":
		d.Field = rapid.SampledFrom(fieldNames).Draw(t, "field")
		d.Index = rapid.IntRange(0, 3).Draw(t, "index")
		d.Base = rapid.SampledFrom([]string{"abs", "abs", "orig", "orig", "orig", "size", "magic", "page"}).Draw(t, "base")
		if rapid.IntRange(0, 5).Draw(t, "dk") == 5 {
			d.Delta = rapid.Int64().Draw(t, "delta")
		} else {
			d.Delta = rapid.SampledFrom(deltas).Draw(t, "delta")
		}
	case "byte", "rbyte":
		d.Off = off.Draw(t, "off")
		d.Bytes = raw.Draw(t, "bytes")
	case "truncate":
		d.Off = off.Draw(t, "off")
	case "rtruncate":
		d.Off = rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(1, 9000)).Draw(t, "off")
	case "append":
		d.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(t, "bytes")
	case "copy", "cut":
		d.Off, d.From, d.Len = off.Draw(t, "off"), off.Draw(t, "from"), rapid.OneOf(rapid.IntRange(1, 80), rapid.IntRange(1, 5000)).Draw(t, "len")
	}
	return d
}

// numbersIn counts how many complete numbers a section holds.
func numbersIn(b []byte, varint bool) int {
	if !varint {
		return len(b) / 8
	}
	n := 0
	for _, x := range b {
		if x < 0x80 {
			n++
		}
	}
	return n
}

// tooShort says whether block i of the damaged file is locatable and has a
// section too short for the recorded number of pairs.
func tooShort(b []byte, i int) (bool, int) {
	le := binary.LittleEndian
	enc := le.Uint32(b[32:])
	fs := le.Uint64(b[len(b)-24:])
	start := uint64(len(b)-24) - fs
	e := start + 4 + uint64(i)*56
	if e+56 > uint64(len(b)) {
		return false, 0
	}
	off, size, count := le.Uint64(b[e:]), uint64(le.Uint32(b[e+8:])), int(le.Uint32(b[e+52:]))
	if size < 80 || off > uint64(len(b)) || off+size > uint64(len(b)) {
		return false, count
	}
	d := b[off+64 : off+size]
	io, is, vo, vs := uint64(le.Uint32(d)), uint64(le.Uint32(d[4:])), uint64(le.Uint32(d[8:])), uint64(le.Uint32(d[12:]))
	d = d[16:]
	if io+is > uint64(len(d)) || vo+vs > uint64(len(d)) {
		return true, count // sections reach beyond the block
	}
	var k EncKind
	if enc < 8 {
		k = Kinds[enc]
	}
	return numbersIn(d[io:io+is], k.IDVar) < count || numbersIn(d[vo:vo+vs], k.ValVar) < count, count
}

// bitmapUndamaged says whether looking up the bitmap of the damaged file can
// only see the original serialized bitmap, or none, or an inconsistent size.
func bitmapUndamaged(b []byte, p *Parsed, orig []byte) bool {
	le := binary.LittleEndian
	off, size := le.Uint64(b[44:]), le.Uint64(b[52:])
	if off == 0 || size == 0 {
		return true
	}
	n := uint64(len(b))
	if off > n || size > n || off+size > n || size < 4 {
		return true
	}
	if uint64(le.Uint32(b[off:]))+4 != size {
		return true
	}
	if p == nil {
		return false
	}
	return bytes.Equal(b[off+4:off+size], orig[p.BitmapOff+4:p.BitmapOff+p.BitmapSize])
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func fixedDamage() []DamageCase {
	var out []DamageCase
	for enc := uint32(0); enc < 8; enc++ {
		f := FileSpec{Enc: enc, Target: 4096, Chunks: []Chunk{{{N: 40, ID: 300, Step: 1, V: -900, VStep: 77}}, {{N: 3, ID: 1, Step: 40, V: 5, VStep: -1}}}}
		for _, name := range fieldNames {
			for _, base := range []string{"abs", "orig", "size"} {
				for di, dl := range deltas {
					if enc != 0 && enc != 7 && di%4 != int(enc)%4 {
						continue
					}
					out = append(out, DamageCase{File: f, Damages: []Damage{{Kind: "field", Field: name, Base: base, Delta: dl}}})
				}
			}
		}
		// every section size from the true one downwards, and counts upwards
		for d := int64(1); d < 330; d++ {
			if enc != 0 && enc != 7 && d > 40 {
				break
			}
			for _, name := range []string{"l.idsize", "l.valsize"} {
				out = append(out, DamageCase{File: f, Damages: []Damage{{Kind: "field", Field: name, Base: "orig", Delta: -d}}})
			}
			out = append(out, DamageCase{File: f, Damages: []Damage{{Kind: "field", Field: "e.count", Base: "orig", Delta: d}}})
		}
	}
	// all short files
	f := FileSpec{Enc: 0, Chunks: []Chunk{{{N: 2, ID: 1, V: 5}}}}
	for n := 0; n < 130; n++ {
		out = append(out, DamageCase{File: f, Damages: []Damage{{Kind: "truncate", Off: n}}})
		out = append(out, DamageCase{File: f, Damages: []Damage{{Kind: "rtruncate", Off: n}}})
	}
	var m [8]byte
	binary.LittleEndian.PutUint64(m[:], Magic)
	for n := 0; n < 120; n++ { // header magic, n bytes, trailer magic
		raw := append(append(append([]byte(nil), m[:]...), 1, 0, 0, 0), make([]byte, n)...)
		out = append(out, DamageCase{UseRaw: true, Raw: append(raw, m[:]...)})
	}
	return out
}

func TestC19(t *testing.T) {
	Run(t, Prop[DamageCase]{
		ID:    "C19",
		Rule:  "a case is a valid file with 1-4 structured changes (fields of header, index, layout and trailer set to border values, bytes overwritten, truncation, insertion, regions copied or cut) or arbitrary bytes with plausible magic numbers; non-trivial = the bytes differ from a valid file and the header magic is intact",
		Fixed: fixedDamage,
		Gen: func(t *rapid.T) DamageCase {
			if rapid.IntRange(0, 9).Draw(t, "raw") == 9 {
				n := rapid.SampledFrom([]int{0, 10, 64, 88, 92, 100, 150, 400, 2000}).Draw(t, "rawlen")
				b := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0, 0, 1, 0x7f, 0x80, 0xff, 4, 8, 56, 64, 80}), rapid.Byte()), 0, n).Draw(t, "rawbytes")
				if len(b) >= 96 {
					binary.LittleEndian.PutUint64(b, Magic)
					binary.LittleEndian.PutUint32(b[8:], 1)
					binary.LittleEndian.PutUint64(b[16:], rapid.Uint64Range(0, 3).Draw(t, "rbc"))
					binary.LittleEndian.PutUint32(b[32:], rapid.Uint32Range(0, 8).Draw(t, "renc"))
					binary.LittleEndian.PutUint64(b[len(b)-8:], Magic)
					binary.LittleEndian.PutUint64(b[len(b)-24:], rapid.OneOf(rapid.SampledFrom([]uint64{4, 60, 116, uint64(len(b)) - 88}), rapid.Uint64Range(0, uint64(len(b)))).Draw(t, "rfs"))
				}
				return DamageCase{UseRaw: true, Raw: b}
			}
			f := FileSpec{Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 4096, 1}).Draw(t, "target")}
			f.Chunks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Chunk { return GenChunk(t, Tiny, 3) }), 0, 4).Draw(t, "chunks")
			f.Limit()
			return DamageCase{File: f, Damages: rapid.SliceOfN(rapid.Custom(genDamage), 1, 4).Draw(t, "damages")}
		},
		Exec: execDamage,
	})
}

func execDamage(e *Env, c DamageCase) error {
	var orig []byte
	var p *Parsed
	if c.UseRaw {
		orig = c.Raw
	} else {
		base := e.Path()
		if _, err := c.File.Write(base); err != nil {
			return err
		}
		orig = MustRead(base)
		var err error
		if p, err = Parse(orig); err != nil {
			return fmt.Errorf("undamaged file: %w", err)
		}
	}
	b := applyDamage(orig, p, c.Damages)
	path := e.Path()
	Must(os.WriteFile(path, b, 0o644))
	le := binary.LittleEndian
	magicOK := len(b) >= 8 && le.Uint64(b) == Magic
	e.NonTrivial(magicOK && (c.UseRaw || !bytes.Equal(b, orig)))
	e.ClassIf(c.UseRaw, "arbitrary bytes")
	for _, d := range c.Damages {
		e.Class("damage " + d.Kind)
	}

	fds := openFiles(e.Dir)
	size := uint64(len(b))
	m0 := allocated()
	r, err := col.NewReader(path)
	// proportional, with room for fixed costs: the index is decoded into
	// entries slightly larger than their encoding
	if used, lim := allocated()-m0, 64*size+(1<<20); used > lim {
		return fmt.Errorf("opening a file of %d bytes allocated %d bytes", size, used)
	}
	if err != nil {
		e.Class("refused")
		if n := openFiles(e.Dir); n != fds {
			return fmt.Errorf("refused file left open (%v)", err)
		}
		return nil
	}
	e.Class("opened")
	defer r.Close()
	if len(b) < 64+24 {
		return fmt.Errorf("file of %d bytes, too short for header and trailer, opened", len(b))
	}
	if !magicOK || le.Uint64(b[len(b)-8:]) != Magic || le.Uint32(b[8:]) != 1 {
		return fmt.Errorf("opened a file with magic numbers %x and %x, version %d", le.Uint64(b), le.Uint64(b[len(b)-8:]), le.Uint32(b[8:]))
	}
	n := r.BlockCount()
	blocks := n
	if blocks > 40 {
		blocks = 40
	}
	good := 0
	step := func(what string, units uint64, f func() error) error {
		m0 := allocated()
		if err := f(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if used, lim := allocated()-m0, units*(64*size+(1<<16))+(1<<20); used > lim {
			return fmt.Errorf("%s on a file of %d bytes allocated %d bytes", what, size, used)
		}
		return nil
	}
	for i := uint64(0); i < blocks; i++ {
		err := step(fmt.Sprintf("reading block %d", i), 1, func() error {
			ids, vals, err := r.GetPairs(i)
			short, count := tooShort(b, int(i))
			if err != nil {
				return nil
			}
			good++
			if len(ids) != len(vals) {
				return fmt.Errorf("%d ids, %d values", len(ids), len(vals))
			}
			if short {
				return fmt.Errorf("sections too short for %d pairs, but %d pairs returned without an error", count, len(ids))
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	e.ClassIf(good > 0, "some block readable")
	e.ClassIf(uint64(good) < blocks, "some block unreadable")
	for _, i := range []uint64{n, n + 1, 1 << 31, 1 << 32, 1 << 63, math.MaxUint64} {
		if i >= n {
			if _, _, err := r.GetPairs(i); err == nil {
				return fmt.Errorf("block index %d of %d read without an error", i, n)
			}
		}
	}
	allow := Filter{From: 300, Len: 20, IDs: []uint64{1, math.MaxUint64}}.Bitmap()
	deny := Filter{IDs: []uint64{0, 1, 301}}.Bitmap()
	units := n + 1
	for _, o := range []col.AggregateOptions{{}, {SkipPreCalculated: true}, {Filter: allow}, {DenyFilter: deny}, {Filter: allow, DenyFilter: deny}, {Parallel: 3}, {Parallel: -1, SkipPreCalculated: true}, {Parallel: 2, Filter: allow}} {
		if err := step("aggregating", units+4, func() error { r.AggregateWithOptions(o); return nil }); err != nil {
			return err
		}
	}
	if err := step("pruning", units, func() error {
		r.FilteredBlockIterator(nil, nil)
		r.FilteredBlockIterator(allow, deny)
		r.FilteredBlockIterator(nil, deny)
		return nil
	}); err != nil {
		return err
	}
	if err := step("describing", units*4, func() error { _ = r.DebugInfo(); return nil }); err != nil {
		return err
	}
	if bitmapUndamaged(b, p, orig) {
		e.Class("bitmap looked up")
		if err := step("loading the id bitmap", 2, func() error {
			r.GetGlobalIDBitmap()
			r.EnableGlobalIDBitmapCaching()
			r.GetGlobalIDBitmap()
			return nil
		}); err != nil {
			return err
		}
	}
	return nil
}
