package core

// An independent decoder and encoder of the column file format, written from
// column_format_spec.md; nothing here uses the package under test.

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/weaviate/sroar"
)

const (
	Magic       uint64 = 0x5642455F434F4C00
	HeaderLen          = 64
	BlockHdrLen        = 64
	LayoutLen          = 16
	EntryLen           = 56
	TrailerLen         = 24
	Page               = 4096
)

// EncKind says how the two sections of an encoding are coded.
type EncKind struct{ IDDelta, IDVar, ValDelta, ValVar bool }

// Kinds per encoding type 0..7, from sections 4.2.1 to 4.2.3 of the format.
var Kinds = [8]EncKind{
	{},
	{IDDelta: true},
	{ValDelta: true},
	{IDDelta: true, ValDelta: true},
	{IDVar: true, ValVar: true},
	{IDVar: true, IDDelta: true},
	{ValVar: true, ValDelta: true},
	{IDVar: true, IDDelta: true, ValVar: true, ValDelta: true},
}

// SignMag decodes a stored statistic (sign bit and magnitude; the bare sign
// bit is the smallest value).
func SignMag(u uint64) int64 {
	if u>>63 == 0 {
		return int64(u)
	}
	m := u &^ (1 << 63)
	if m == 0 {
		return math.MinInt64
	}
	return -int64(m)
}

// ToSignMag is the inverse of SignMag.
func ToSignMag(v int64) uint64 {
	if v >= 0 {
		return uint64(v)
	}
	if v == math.MinInt64 {
		return 1 << 63
	}
	return uint64(-v) | 1<<63
}

// ParsedBlock is a decoded block.
type ParsedBlock struct {
	Offset, Size           uint64
	MinID, MaxID           uint64
	Min, Max, Sum          int64
	Count                  uint32
	Enc, Comp              uint32
	IdxMinID, IdxMaxID     uint64
	IdxMin, IdxMax, IdxSum int64
	IdxCount               uint32
	IDOff, IDSize          uint32
	ValOff, ValSize        uint32
	Pairs                  Pairs
	Used                   uint64 // bytes from Offset to the end of the last section
}

// Parsed is a decoded file.
type Parsed struct {
	Version, ColType, Target, Comp, Enc uint32
	BlockCount, Created                 uint64
	BitmapOff, BitmapSize               uint64
	BitmapLen                           uint32
	Bitmap                              *sroar.Bitmap
	FooterStart, FooterSize             uint64
	Blocks                              []ParsedBlock
	Len                                 uint64
}

func canonVar(b []byte) (uint64, int, error) {
	v, n := binary.Uvarint(b)
	if n <= 0 {
		return 0, 0, fmt.Errorf("variable-length integer cut off or too long")
	}
	if n > 1 && b[n-1] == 0 {
		return 0, 0, fmt.Errorf("variable-length integer not in its shortest form")
	}
	return v, n, nil
}

func decodeSection(b []byte, n int, varint, delta, signed bool) ([]uint64, error) {
	out := make([]uint64, 0, n)
	if !varint {
		if len(b) != 8*n {
			return nil, fmt.Errorf("section of %d bytes for %d fixed-width numbers", len(b), n)
		}
		for i := 0; i < n; i++ {
			out = append(out, binary.LittleEndian.Uint64(b[8*i:]))
		}
	} else {
		for i := 0; i < n; i++ {
			v, k, err := canonVar(b)
			if err != nil {
				return nil, fmt.Errorf("number %d: %w", i, err)
			}
			b = b[k:]
			if signed {
				v = uint64(int64(v>>1) ^ -int64(v&1))
			}
			out = append(out, v)
		}
		if len(b) != 0 {
			return nil, fmt.Errorf("%d bytes left after %d variable-length numbers", len(b), n)
		}
	}
	if delta {
		for i := 1; i < len(out); i++ {
			out[i] += out[i-1]
		}
	}
	return out, nil
}

// Parse decodes a complete file strictly by the format description.
func Parse(b []byte) (*Parsed, error) { return parse(b, false) }

// ParseAny is Parse for files that may lack an id bitmap.
func ParseAny(b []byte) (*Parsed, error) { return parse(b, true) }

func parse(b []byte, noBitmap bool) (*Parsed, error) {
	le := binary.LittleEndian
	if len(b) < HeaderLen+4+TrailerLen {
		return nil, fmt.Errorf("file of %d bytes is too short", len(b))
	}
	if le.Uint64(b) != Magic {
		return nil, fmt.Errorf("header magic %x", le.Uint64(b))
	}
	p := &Parsed{Len: uint64(len(b)),
		Version: le.Uint32(b[8:]), ColType: le.Uint32(b[12:]), BlockCount: le.Uint64(b[16:]), Target: le.Uint32(b[24:]),
		Comp: le.Uint32(b[28:]), Enc: le.Uint32(b[32:]), Created: le.Uint64(b[36:]), BitmapOff: le.Uint64(b[44:]), BitmapSize: le.Uint64(b[52:])}
	if p.Version != 1 || p.ColType != 0 || p.Comp != 0 || p.Enc > 7 {
		return nil, fmt.Errorf("header: version %d, column type %d, compression %d, encoding %d", p.Version, p.ColType, p.Comp, p.Enc)
	}
	tr := b[len(b)-TrailerLen:]
	if le.Uint64(tr[16:]) != Magic {
		return nil, fmt.Errorf("trailer magic %x", le.Uint64(tr[16:]))
	}
	p.FooterSize = le.Uint64(tr)
	if p.FooterSize < 4 || p.FooterSize > uint64(len(b)-TrailerLen-HeaderLen) {
		return nil, fmt.Errorf("footer size %d", p.FooterSize)
	}
	p.FooterStart = uint64(len(b)-TrailerLen) - p.FooterSize
	ft := b[p.FooterStart : len(b)-TrailerLen]
	n := uint64(le.Uint32(ft))
	if uint64(len(ft)) != 4+n*EntryLen {
		return nil, fmt.Errorf("footer of %d bytes for %d index entries", len(ft), n)
	}
	if n != p.BlockCount {
		return nil, fmt.Errorf("header counts %d blocks, index %d", p.BlockCount, n)
	}
	// bitmap
	lacks := noBitmap && p.BitmapOff == 0 && p.BitmapSize == 0
	if !lacks && (p.BitmapOff < HeaderLen || p.BitmapSize < 4 || p.BitmapOff+p.BitmapSize > p.FooterStart) {
		return nil, fmt.Errorf("bitmap at %d size %d", p.BitmapOff, p.BitmapSize)
	}
	if !lacks {
		p.BitmapLen = le.Uint32(b[p.BitmapOff:])
		if uint64(p.BitmapLen)+4 != p.BitmapSize {
			return nil, fmt.Errorf("bitmap length %d in a section of %d bytes", p.BitmapLen, p.BitmapSize)
		}
		p.Bitmap = sroar.FromBuffer(append([]byte(nil), b[p.BitmapOff+4:p.BitmapOff+p.BitmapSize]...))
	}
	// blocks
	for i := uint64(0); i < n; i++ {
		e := ft[4+i*EntryLen:]
		k := ParsedBlock{Offset: le.Uint64(e), Size: uint64(le.Uint32(e[8:])), IdxMinID: le.Uint64(e[12:]), IdxMaxID: le.Uint64(e[20:]),
			IdxMin: SignMag(le.Uint64(e[28:])), IdxMax: SignMag(le.Uint64(e[36:])), IdxSum: SignMag(le.Uint64(e[44:])), IdxCount: le.Uint32(e[52:])}
		if k.Offset < HeaderLen || k.Size < BlockHdrLen+LayoutLen || k.Offset+k.Size > uint64(len(b)) {
			return nil, fmt.Errorf("block %d at %d size %d", i, k.Offset, k.Size)
		}
		h := b[k.Offset : k.Offset+k.Size]
		k.MinID, k.MaxID = le.Uint64(h), le.Uint64(h[8:])
		k.Min, k.Max, k.Sum = SignMag(le.Uint64(h[16:])), SignMag(le.Uint64(h[24:])), SignMag(le.Uint64(h[32:]))
		k.Count, k.Enc, k.Comp = le.Uint32(h[40:]), le.Uint32(h[44:]), le.Uint32(h[48:])
		l := h[BlockHdrLen:]
		k.IDOff, k.IDSize, k.ValOff, k.ValSize = le.Uint32(l), le.Uint32(l[4:]), le.Uint32(l[8:]), le.Uint32(l[12:])
		d := l[LayoutLen:]
		if uint64(k.IDOff)+uint64(k.IDSize) > uint64(len(d)) || uint64(k.ValOff)+uint64(k.ValSize) > uint64(len(d)) {
			return nil, fmt.Errorf("block %d: sections %d+%d and %d+%d outside %d data bytes", i, k.IDOff, k.IDSize, k.ValOff, k.ValSize, len(d))
		}
		kind := Kinds[p.Enc]
		ids, err := decodeSection(d[k.IDOff:k.IDOff+k.IDSize], int(k.Count), kind.IDVar, kind.IDDelta, false)
		if err != nil {
			return nil, fmt.Errorf("block %d ids: %w", i, err)
		}
		vals, err := decodeSection(d[k.ValOff:k.ValOff+k.ValSize], int(k.Count), kind.ValVar, kind.ValDelta, true)
		if err != nil {
			return nil, fmt.Errorf("block %d values: %w", i, err)
		}
		k.Pairs.IDs = ids
		for _, v := range vals {
			k.Pairs.Vals = append(k.Pairs.Vals, int64(v))
		}
		end := uint64(k.IDOff) + uint64(k.IDSize)
		if e2 := uint64(k.ValOff) + uint64(k.ValSize); e2 > end {
			end = e2
		}
		k.Used = BlockHdrLen + LayoutLen + end
		p.Blocks = append(p.Blocks, k)
	}
	return p, nil
}

// BlockStats compares the stored statistics of a block with its pairs.
func (k *ParsedBlock) CheckStats(fileEnc uint32) error {
	a := Agg(k.Pairs)
	var minID, maxID uint64
	for i, id := range k.Pairs.IDs {
		if i == 0 || id < minID {
			minID = id
		}
		if i == 0 || id > maxID {
			maxID = id
		}
	}
	if k.MinID != minID || k.MaxID != maxID || k.Min != a.Min || k.Max != a.Max || k.Sum != a.Sum || int(k.Count) != a.Count {
		return fmt.Errorf("block header has ids %d..%d values %d..%d sum %d count %d, want ids %d..%d %+v", k.MinID, k.MaxID, k.Min, k.Max, k.Sum, k.Count, minID, maxID, a)
	}
	if k.IdxMinID != minID || k.IdxMaxID != maxID || k.IdxMin != a.Min || k.IdxMax != a.Max || k.IdxSum != a.Sum || int(k.IdxCount) != a.Count {
		return fmt.Errorf("index entry has ids %d..%d values %d..%d sum %d count %d, want ids %d..%d %+v", k.IdxMinID, k.IdxMaxID, k.IdxMin, k.IdxMax, k.IdxSum, k.IdxCount, minID, maxID, a)
	}
	if k.Enc != fileEnc || k.Comp != 0 {
		return fmt.Errorf("block header has encoding %d compression %d, file encoding %d", k.Enc, k.Comp, fileEnc)
	}
	return nil
}

// EncodeSection encodes numbers (values as their two's complement).
func EncodeSection(xs []uint64, varint, delta, signed bool) []byte {
	var out []byte
	var prev uint64
	for i, x := range xs {
		d := x
		if delta && i > 0 {
			d = x - prev
		}
		prev = x
		if varint {
			if signed {
				d = uint64(int64(d)<<1) ^ uint64(int64(d)>>63)
			}
			out = binary.AppendUvarint(out, d)
		} else {
			out = binary.LittleEndian.AppendUint64(out, d)
		}
	}
	return out
}

// EncodePairs gives the two sections of a block.
func EncodePairs(p Pairs, enc uint32) (ids, vals []byte) {
	k := Kinds[enc]
	u := make([]uint64, len(p.Vals))
	for i, v := range p.Vals {
		u[i] = uint64(v)
	}
	return EncodeSection(p.IDs, k.IDVar, k.IDDelta, false), EncodeSection(u, k.ValVar, k.ValDelta, true)
}

// BlockLayoutSpec chooses a conforming block layout.
type BlockLayoutSpec struct {
	ValFirst bool `json:"valfirst,omitempty"` // value section before the id section
	GapA     int  `json:"gapa,omitempty"`     // bytes before the first section
	GapB     int  `json:"gapb,omitempty"`     // bytes between the sections
	Tail     int  `json:"tail,omitempty"`     // bytes after the second section, inside the block
	Skip     int  `json:"skip,omitempty"`     // bytes between this block and the next thing
	Page     bool `json:"page,omitempty"`     // pad the block end to a page
	Fill     byte `json:"fill,omitempty"`     // content of gaps
}

// BuildOpts chooses a conforming file layout.
type BuildOpts struct {
	Enc         uint32
	Target      uint32
	Created     uint64
	BitmapFirst bool
	NoBitmap    bool
	FooterSkip  int
	Layouts     []BlockLayoutSpec // by block, repeated
	Reverse     bool              // blocks stored in the opposite order of the index
}

// Build encodes a file and returns its bytes with its parsed geometry.
func Build(blocks []Pairs, o BuildOpts) []byte {
	le := binary.LittleEndian
	b := make([]byte, HeaderLen)
	bm := sroar.NewBitmap()
	for _, p := range blocks {
		for _, id := range p.IDs {
			bm.Set(id)
		}
	}
	var bmOff, bmSize uint64
	putBitmap := func() {
		if o.NoBitmap {
			return
		}
		buf := bm.ToBuffer()
		bmOff = uint64(len(b))
		b = le.AppendUint32(b, uint32(len(buf)))
		b = append(b, buf...)
		bmSize = uint64(len(b)) - bmOff
	}
	fill := func(n int, v byte) {
		for i := 0; i < n; i++ {
			b = append(b, v)
		}
	}
	if o.BitmapFirst {
		putBitmap()
	}
	var footer []byte
	footer = le.AppendUint32(footer, uint32(len(blocks)))
	entries := make([][]byte, len(blocks))
	for k := range blocks {
		i := k
		if o.Reverse {
			i = len(blocks) - 1 - k
		}
		p := blocks[i]
		var l BlockLayoutSpec
		if len(o.Layouts) > 0 {
			l = o.Layouts[i%len(o.Layouts)]
		}
		start := len(b)
		a := Agg(p)
		minID, maxID := p.IDs[0], p.IDs[0]
		for _, id := range p.IDs {
			minID, maxID = min(minID, id), max(maxID, id)
		}
		h := make([]byte, 0, 64)
		h = le.AppendUint64(h, minID)
		h = le.AppendUint64(h, maxID)
		h = le.AppendUint64(h, ToSignMag(a.Min))
		h = le.AppendUint64(h, ToSignMag(a.Max))
		h = le.AppendUint64(h, ToSignMag(a.Sum))
		h = le.AppendUint32(h, uint32(p.Len()))
		h = le.AppendUint32(h, o.Enc)
		h = le.AppendUint32(h, 0)
		h = append(h, make([]byte, 64-len(h))...)
		b = append(b, h...)
		ids, vals := EncodePairs(p, o.Enc)
		idOff, valOff := uint32(l.GapA), uint32(l.GapA+len(ids)+l.GapB)
		if l.ValFirst {
			valOff, idOff = uint32(l.GapA), uint32(l.GapA+len(vals)+l.GapB)
		}
		b = le.AppendUint32(b, idOff)
		b = le.AppendUint32(b, uint32(len(ids)))
		b = le.AppendUint32(b, valOff)
		b = le.AppendUint32(b, uint32(len(vals)))
		fill(l.GapA, l.Fill)
		if l.ValFirst {
			b = append(b, vals...)
			fill(l.GapB, l.Fill)
			b = append(b, ids...)
		} else {
			b = append(b, ids...)
			fill(l.GapB, l.Fill)
			b = append(b, vals...)
		}
		fill(l.Tail, l.Fill)
		if l.Page && len(b)%Page != 0 {
			fill(Page-len(b)%Page, 0)
		}
		x := make([]byte, 0, EntryLen)
		x = le.AppendUint64(x, uint64(start))
		x = le.AppendUint32(x, uint32(len(b)-start))
		x = le.AppendUint64(x, minID)
		x = le.AppendUint64(x, maxID)
		x = le.AppendUint64(x, ToSignMag(a.Min))
		x = le.AppendUint64(x, ToSignMag(a.Max))
		x = le.AppendUint64(x, ToSignMag(a.Sum))
		entries[i] = le.AppendUint32(x, uint32(p.Len()))
		fill(l.Skip, l.Fill)
	}
	for _, x := range entries {
		footer = append(footer, x...)
	}
	if !o.BitmapFirst {
		putBitmap()
	}
	fill(o.FooterSkip, 0)
	fs := len(footer)
	b = append(b, footer...)
	b = le.AppendUint64(b, uint64(fs))
	b = le.AppendUint64(b, 0)
	b = le.AppendUint64(b, Magic)
	le.PutUint64(b, Magic)
	le.PutUint32(b[8:], 1)
	le.PutUint32(b[12:], 0)
	le.PutUint64(b[16:], uint64(len(blocks)))
	le.PutUint32(b[24:], o.Target)
	le.PutUint32(b[28:], 0)
	le.PutUint32(b[32:], o.Enc)
	le.PutUint64(b[36:], o.Created)
	le.PutUint64(b[44:], bmOff)
	le.PutUint64(b[52:], bmSize)
	return b
}

// EncodedBlockSize is the size a block of these pairs takes at file offset
// off, padding included.
func EncodedBlockSize(p Pairs, enc uint32, off uint64) uint64 {
	ids, vals := EncodePairs(p, enc)
	n := uint64(BlockHdrLen + LayoutLen + len(ids) + len(vals))
	if r := (off + n) % Page; r != 0 {
		n += Page - r
	}
	return n
}
