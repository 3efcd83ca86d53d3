package core

import (
	"math"

	"pgregory.net/rapid"
)

// Seg is a compact description of N consecutive pairs.
//
// Mode bits: 1 = reversed, 2 = ids scattered (a fixed mix of the run's own
// numbers), 4 = values scattered.
type Seg struct {
	N     int    `json:"n"`
	ID    uint64 `json:"id"`
	Step  uint64 `json:"step,omitempty"`
	V     int64  `json:"v"`
	VStep int64  `json:"vstep,omitempty"`
	Mode  uint8  `json:"mode,omitempty"`
}

// Chunk is the data of one call.
type Chunk []Seg

// Pairs is a sequence of id-value pairs.
type Pairs struct {
	IDs  []uint64
	Vals []int64
}

func (p Pairs) Len() int { return len(p.IDs) }

func (p *Pairs) Add(id uint64, v int64) {
	p.IDs = append(p.IDs, id)
	p.Vals = append(p.Vals, v)
}

func (p *Pairs) Append(q Pairs) {
	p.IDs = append(p.IDs, q.IDs...)
	p.Vals = append(p.Vals, q.Vals...)
}

// Slice returns pairs i..j without copying.
func (p Pairs) Slice(i, j int) Pairs { return Pairs{p.IDs[i:j], p.Vals[i:j]} }

// Clone copies the pairs.
func (p Pairs) Clone() Pairs {
	return Pairs{append([]uint64(nil), p.IDs...), append([]int64(nil), p.Vals...)}
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// Expand lists the pairs of the chunk.
func (c Chunk) Expand() Pairs {
	var p Pairs
	for _, r := range c {
		for k := 0; k < r.N; k++ {
			i := uint64(k)
			if r.Mode&1 != 0 {
				i = uint64(r.N - 1 - k)
			}
			id := r.ID + i*r.Step
			if r.Mode&2 != 0 {
				span := r.Step + 1
				h := mix(r.ID + 0x9e3779b97f4a7c15*(i+1))
				if span == 0 {
					id = h
				} else {
					id = r.ID + h%span
				}
			}
			v := r.V + int64(i)*r.VStep
			if r.Mode&4 != 0 {
				v = r.V + (int64(mix(uint64(r.VStep)+i*0x9e3779b97f4a7c15)) >> (uint64(r.VStep) & 63))
			}
			p.Add(id, v)
		}
	}
	return p
}

// N is the number of pairs in the chunk.
func (c Chunk) N() int {
	n := 0
	for _, r := range c {
		n += r.N
	}
	return n
}

// FileSpec describes a file made with the block writer.
type FileSpec struct {
	Enc    uint32  `json:"enc"`
	Target uint32  `json:"target"` // 0 = option not given
	Chunks []Chunk `json:"chunks"`
	// Drop decides what follows a full block: if bit k (mod 8) is set, the
	// unwritten tail after the k-th full block is dropped, else resubmitted.
	Drop uint8 `json:"drop,omitempty"`
	// Split passes each chunk in calls of so many pairs, when not 0.
	Split int `json:"split,omitempty"`
	// Zero gives the size target 0 explicitly.
	Zero bool `json:"zero,omitempty"`
	// Layout makes the file with the independent encoder instead of the block
	// writer: each call becomes a block, laid out like this.
	Layout *Layout `json:"layout,omitempty"`
}

// Layout is a conforming layout of the independent encoder.
type Layout struct {
	BitmapFirst bool              `json:"bitmapfirst,omitempty"`
	NoBitmap    bool              `json:"nobitmap,omitempty"`
	Reverse     bool              `json:"reverse,omitempty"`
	FooterSkip  int               `json:"footerskip,omitempty"`
	Blocks      []BlockLayoutSpec `json:"blocks,omitempty"`
}

// GenBlockLayout draws the layout of a block.
func GenBlockLayout(t *rapid.T) BlockLayoutSpec {
	gap := rapid.SampledFrom([]int{0, 0, 1, 4, 8, 100})
	return BlockLayoutSpec{ValFirst: rapid.Bool().Draw(t, "vf"), GapA: gap.Draw(t, "ga"), GapB: gap.Draw(t, "gb"), Tail: gap.Draw(t, "tail"),
		Skip: rapid.SampledFrom([]int{0, 0, 3, 5000}).Draw(t, "skip"), Page: rapid.Bool().Draw(t, "page"), Fill: rapid.Byte().Draw(t, "fill")}
}

// GenLayout draws no layout, mostly, or a conforming one.
func GenLayout(t *rapid.T, mayLackBitmap bool) *Layout {
	if rapid.IntRange(0, 4).Draw(t, "foreign") < 4 {
		return nil
	}
	l := &Layout{BitmapFirst: rapid.Bool().Draw(t, "bmfirst"), Reverse: rapid.IntRange(0, 3).Draw(t, "reverse") == 3,
		FooterSkip: rapid.SampledFrom([]int{0, 1, 24, 4000}).Draw(t, "fskip")}
	if mayLackBitmap {
		l.NoBitmap = rapid.IntRange(0, 4).Draw(t, "nobm") == 4
	}
	l.Blocks = rapid.SliceOfN(rapid.Custom(GenBlockLayout), 1, 3).Draw(t, "layouts")
	return l
}

// Calls lists the pairs of each block write.
func (f FileSpec) Calls() []Pairs {
	var out []Pairs
	for _, c := range f.Chunks {
		p := c.Expand()
		for f.Split > 0 && p.Len() > f.Split {
			out = append(out, p.Slice(0, f.Split))
			p = p.Slice(f.Split, p.Len())
		}
		if p.Len() > 0 {
			out = append(out, p)
		}
	}
	return out
}

// N is the number of pairs in the file.
func (f FileSpec) N() int {
	n := 0
	for _, c := range f.Chunks {
		n += c.N()
	}
	return n
}

// Size profile of generated data.
type Size int

const (
	Tiny  Size = iota // at most a few dozen pairs
	Small             // up to a few hundred
	Mixed             // mostly small, some with thousands of pairs
)

// EdgeIDs are ids at representation borders.
var EdgeIDs = []uint64{0, 1, 2, 127, 128, 129, 16383, 16384, 65534, 65535, 65536, 65537, 131071, 131072,
	1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<48 - 1, 1 << 48, 1<<56 - 1, 1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<63 + 1,
	math.MaxUint64 - 65536, math.MaxUint64 - 65535, math.MaxUint64 - 2, math.MaxUint64 - 1, math.MaxUint64}

// EdgeVals are values at representation borders.
var EdgeVals = []int64{0, 1, -1, 2, -2, 63, 64, -64, -65, 127, 128, -128, 8191, 8192, -8192, -8193,
	1<<20 - 1, 1 << 20, 1<<31 - 1, 1 << 31, -(1 << 31), 1<<32 - 1, 1 << 32, -(1 << 32), 1 << 55, 1 << 62, -(1 << 62), 1<<62 - 1,
	math.MaxInt64 - 1, math.MaxInt64, math.MinInt64 + 1, math.MinInt64, math.MinInt64 / 2, math.MaxInt64 / 2}

// GenID draws an id.
func GenID(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 9).Draw(t, "idkind") {
	case 0, 1, 2, 3:
		return rapid.Uint64Range(0, 40).Draw(t, "id")
	case 4, 5:
		return rapid.Uint64Range(0, 3000).Draw(t, "id")
	case 6:
		k := rapid.Uint64Range(0, 4).Draw(t, "container")
		return k*65536 + rapid.Uint64Range(0, 6).Draw(t, "off") - 3*(1-b2u(k == 0))
	case 7, 8:
		return rapid.SampledFrom(EdgeIDs).Draw(t, "edgeid")
	default:
		return rapid.Uint64().Draw(t, "id64")
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// GenVal draws a value.
func GenVal(t *rapid.T) int64 {
	switch rapid.IntRange(0, 7).Draw(t, "valkind") {
	case 0, 1, 2:
		return rapid.Int64Range(-60, 60).Draw(t, "val")
	case 3:
		return rapid.Int64Range(-100000, 100000).Draw(t, "val")
	case 4, 5:
		return rapid.SampledFrom(EdgeVals).Draw(t, "edgeval")
	default:
		return rapid.Int64().Draw(t, "val64")
	}
}

// boundary counts: raw blocks of 4 KB..16 KB targets fill up at these sizes.
var boundaryN = []int{245, 246, 247, 250, 251, 252, 253, 502, 503, 507, 508, 998, 999, 1000, 1001, 1015, 1018, 1019, 1020}

// GenSeg draws a segment.
func GenSeg(t *rapid.T, size Size) Seg {
	var r Seg
	k := rapid.IntRange(0, 19).Draw(t, "runkind")
	switch {
	case k < 9:
		r.N = 1
	case k < 13 || size == Tiny:
		r.N = rapid.IntRange(1, 12).Draw(t, "n")
	case k < 16:
		r.N = rapid.IntRange(1, 90).Draw(t, "n")
	case k < 18 || size == Small:
		r.N = rapid.IntRange(1, 320).Draw(t, "n")
	case k < 19:
		r.N = rapid.SampledFrom(boundaryN).Draw(t, "nb")
	default:
		r.N = rapid.IntRange(1, 1600).Draw(t, "n")
	}
	r.ID = GenID(t)
	r.V = GenVal(t)
	if r.N > 1 {
		switch rapid.IntRange(0, 9).Draw(t, "stepkind") {
		case 0, 1, 2, 3:
			r.Step = 1
		case 4:
			r.Step = 0
		case 5, 6:
			r.Step = rapid.Uint64Range(2, 300).Draw(t, "step")
		case 7:
			r.Step = rapid.SampledFrom([]uint64{65535, 65536, 1 << 20, 1 << 32}).Draw(t, "step")
		case 8:
			r.Step = rapid.Uint64Range(0, 100000).Draw(t, "step")
		default:
			r.Step = rapid.Uint64().Draw(t, "step")
		}
		switch rapid.IntRange(0, 3).Draw(t, "vstepkind") {
		case 0:
			r.VStep = rapid.Int64Range(-3, 10).Draw(t, "vstep")
		case 1:
			r.VStep = rapid.Int64Range(-70000, 70000).Draw(t, "vstep")
		default:
			r.VStep = rapid.Int64().Draw(t, "vstep")
		}
		r.Mode = rapid.SampledFrom([]uint8{0, 0, 0, 1, 2, 2, 4, 4, 5, 6, 6}).Draw(t, "mode")
	}
	return r
}

// GenChunk draws the data of one call; minN is 0 or 1.
func GenChunk(t *rapid.T, size Size, maxRuns int) Chunk {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Seg { return GenSeg(t, size) }), 1, maxRuns).Draw(t, "chunk")
}

// GenSize draws a size profile: mostly tiny.
func GenSize(t *rapid.T) Size {
	return rapid.SampledFrom([]Size{Tiny, Tiny, Tiny, Small, Small, Mixed}).Draw(t, "size")
}

// GenEnc draws one of the eight encodings.
func GenEnc(t *rapid.T) uint32 { return rapid.Uint32Range(0, 7).Draw(t, "enc") }

// Targets of interest: 0 = default, exact page borders, tiny, huge.
var Targets = []uint32{0, 0, 4096, 4032, 8128, 8192, 12288, 16320, 16384, 4095, 4033, 4031, 1, 80, 96, 112, 127, 128, 200, 5000, 65536, 1 << 20, math.MaxUint32}

// GenTarget draws a block size target.
func GenTarget(t *rapid.T) uint32 {
	if rapid.IntRange(0, 5).Draw(t, "targetkind") == 5 {
		return rapid.Uint32Range(1, 40000).Draw(t, "target")
	}
	return rapid.SampledFrom(Targets).Draw(t, "target")
}

// Cost limits: below the page size every block holds one pair, so that many
// pairs mean many blocks; large targets make the prefix search quadratic.
func (f *FileSpec) Limit() {
	max := 6000
	eff := f.Target
	if eff == 0 && !f.Zero {
		eff = 16384
	}
	switch {
	case eff < 4096 && f.Split == 1:
		max = 1500
	case eff < 4096:
		max = 60
	case eff <= 8192:
		max = 2500
	}
	for ci := range f.Chunks {
		for ri := range f.Chunks[ci] {
			r := &f.Chunks[ci][ri]
			if r.N > max {
				r.N = max
			}
			max -= r.N
			if max < 1 {
				max = 1
			}
		}
	}
}

// GenBigFile draws a file with at least one block of many thousand pairs.
func GenBigFile(t *rapid.T) FileSpec {
	f := FileSpec{Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{1 << 20, 1 << 22, math.MaxUint32}).Draw(t, "bigtarget")}
	n := rapid.IntRange(1, 3).Draw(t, "bigchunks")
	for i := 0; i < n; i++ {
		r := GenSeg(t, Tiny)
		r.N = rapid.SampledFrom([]int{1, 300, 8100, 8191, 8192, 8193, 9000, 16500, 33000}).Draw(t, "bign")
		if i == 0 && r.N < 8000 {
			r.N = 8500
		}
		if r.N > 1 && r.Step == 0 {
			r.Step, r.VStep, r.Mode = rapid.Uint64Range(1, 70).Draw(t, "bigstep"), rapid.Int64().Draw(t, "bigvstep"), 4*rapid.Uint8Range(0, 1).Draw(t, "bigmode")
		}
		f.Chunks = append(f.Chunks, Chunk{r})
	}
	return f
}

// GenLongFile draws a file of hundreds of small blocks.
func GenLongFile(t *rapid.T) FileSpec {
	f := FileSpec{Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 1, 4096}).Draw(t, "longtarget"), Split: rapid.IntRange(1, 2).Draw(t, "split")}
	r := GenSeg(t, Tiny)
	r.N = rapid.SampledFrom([]int{70, 73, 74, 130, 257, 300, 1100, 1180, 2400}).Draw(t, "longn") * f.Split
	if rapid.Bool().Draw(t, "longrun") {
		r.Step, r.VStep = rapid.Uint64Range(1, 70).Draw(t, "longstep"), rapid.Int64Range(-9, 9).Draw(t, "longvstep")
	}
	f.Chunks = []Chunk{{r}}
	if f.Target == 1 {
		f.Split = 1
	}
	return f
}

// GenFile draws a file description with up to maxChunks block writes.
func GenFile(t *rapid.T, maxChunks int) FileSpec {
	switch rapid.IntRange(0, 239).Draw(t, "bigfile") {
	case 237, 238:
		return GenBigFile(t)
	case 239:
		return GenLongFile(t)
	}
	return GenMidFile(t, maxChunks)
}

// GenMidFile draws a file of up to a few thousand pairs.
func GenMidFile(t *rapid.T, maxChunks int) FileSpec {
	f := FileSpec{Enc: GenEnc(t), Target: GenTarget(t), Drop: genDrop(t)}
	size := GenSize(t)
	lo := 1
	switch rapid.IntRange(0, 39).Draw(t, "special") {
	case 38, 39:
		lo, maxChunks = 0, 0
	case 37:
		f.Target, f.Zero = 0, true
	}
	f.Chunks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Chunk { return GenChunk(t, size, 4) }), lo, maxChunks).Draw(t, "chunks")
	f.Limit()
	return f
}

func genDrop(t *rapid.T) uint8 {
	return rapid.SampledFrom([]uint8{0, 0, 0, 0, 255, 1, 0xfe, 0xaa}).Draw(t, "drop")
}

// GenSmallFile draws a file description of at most a few dozen pairs per call.
func GenSmallFile(t *rapid.T, maxChunks int) FileSpec {
	f := FileSpec{Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 4096, 4096, 1, 100}).Draw(t, "target"), Drop: genDrop(t)}
	f.Chunks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Chunk { return GenChunk(t, Tiny, 3) }), 1, maxChunks).Draw(t, "chunks")
	f.Limit()
	return f
}

// GenFilter draws a bitmap related to the given ids.
func GenFilter(t *rapid.T, ids []uint64, label string) Filter {
	f := genFilter(t, ids, label)
	if !f.Nil && rapid.IntRange(0, 2).Draw(t, label+"other") == 0 {
		f.Via = rapid.SampledFrom([]string{"removed", "removed", "andnot", "or", "clone", "buffer", "sorted"}).Draw(t, label+"via")
	}
	return f
}

func genFilter(t *rapid.T, ids []uint64, label string) Filter {
	k := rapid.IntRange(0, 9).Draw(t, label+"kind")
	var f Filter
	switch {
	case k <= 1:
		return Filter{Nil: true}
	case k == 2:
		return Filter{}
	}
	pick := func(t *rapid.T) uint64 {
		if len(ids) == 0 || rapid.IntRange(0, 4).Draw(t, "rel") == 4 {
			return GenID(t)
		}
		id := ids[rapid.IntRange(0, len(ids)-1).Draw(t, "pick")]
		switch rapid.IntRange(0, 8).Draw(t, "near") {
		case 8: // far away, but near in the lower bits
			return id + 1<<rapid.SampledFrom([]int{8, 16, 31, 32, 32, 33, 48, 63}).Draw(t, "far") + rapid.Uint64Range(0, 4).Draw(t, "off") - 2
		case 6:
			return id + 1
		case 7:
			return id - 1
		}
		return id
	}
	n := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 12, 40}).Draw(t, label+"n")
	if k >= 8 {
		f.From = pick(t)
		f.Len = rapid.SampledFrom([]int{1, 5, 60, 60, 700, 700, 3000, 5000, 70000}).Draw(t, label+"len")
		n = n % 4
	}
	if k == 9 && len(ids) > 0 { // every id except some
		f.IDs = append(f.IDs, ids...)
		for i := 0; i < n && len(f.IDs) > 0; i++ {
			j := rapid.IntRange(0, len(f.IDs)-1).Draw(t, "drop")
			f.IDs = append(f.IDs[:j], f.IDs[j+1:]...)
		}
		f.Len = 0
		return f
	}
	f.IDs = rapid.SliceOfN(rapid.Custom(pick), 0, n).Draw(t, label+"ids")
	return f
}

func SpecIDs(f FileSpec) []uint64 {
	var out []uint64
	for _, c := range f.Chunks {
		out = append(out, c.Expand().IDs...)
	}
	return out
}
