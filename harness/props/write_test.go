package props

import (
	"errors"
	"fmt"
	"math"
	"os"
	"testing"
	"time"

	. "vibeverif/core"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

func openReader(path string) (*col.Reader, error) {
	// equal times, so that a file is not told from an earlier one by them
	os.Chtimes(path, fileTime, fileTime)
	r, err := col.NewReader(path)
	if err != nil {
		return nil, fmt.Errorf("open: %w", err)
	}
	return r, nil
}

var fileTime = time.Unix(1700000000, 0)

// decoy puts a similar file with other ids and values under the name, for
// some small files, and reads it: what is remembered of it must not reappear.
func decoy(path string, f FileSpec) {
	if f.N() > 64 || (int(f.Enc)+f.N())%3 != 0 {
		return
	}
	g := f
	g.Chunks = nil
	for _, c := range f.Chunks {
		c = append(Chunk(nil), c...)
		for i := range c {
			c[i].ID ^= 1
			c[i].V ^= 1
		}
		g.Chunks = append(g.Chunks, c)
	}
	if _, err := g.Write(path); err != nil {
		return // reported when the file itself is written
	}
	r, err := openReader(path)
	if err != nil {
		return
	}
	defer r.Close()
	r.EnableGlobalIDBitmapCaching()
	r.GetGlobalIDBitmap()
	r.Aggregate()
	r.GetPairs(0)
	r.FilteredBlockIterator(nil, nil)
	r.DebugInfo()
}

// edgeChunk holds every edge id and every edge value at least once.
func edgeChunk(rot int) Chunk {
	var c Chunk
	n := max(len(EdgeIDs), len(EdgeVals))
	for i := 0; i < n; i++ {
		c = append(c, Seg{N: 1, ID: EdgeIDs[(i*rot+i/len(EdgeIDs))%len(EdgeIDs)], V: EdgeVals[(i+rot)%len(EdgeVals)]})
	}
	return c
}

// fixedFiles enumerates all encodings with block sizes around every limit.
func fixedFiles() []FileSpec {
	var out []FileSpec
	for enc := uint32(0); enc < 8; enc++ {
		out = append(out, FileSpec{Enc: enc})
		for rot := 1; rot <= 3; rot++ {
			out = append(out, FileSpec{Enc: enc, Chunks: []Chunk{edgeChunk(rot)}})
		}
		for _, n := range []int{1, 2, 3, 245, 246, 247, 251, 252, 253, 1001, 1002, 1015, 1018, 1019, 1020, 2100} {
			out = append(out, FileSpec{Enc: enc, Chunks: []Chunk{{{N: n, ID: 5, Step: 1, V: -7, VStep: 3}}}})
			out = append(out, FileSpec{Enc: enc, Target: 4096, Chunks: []Chunk{{{N: n, ID: 1 << 40, Step: 70000, V: math.MinInt64, VStep: 1 << 50, Mode: 4}}, {{N: 1, ID: 0, V: 0}}}})
		}
		for _, tg := range []uint32{1, 96, 128, 4031, 4032, 4033, 8128, 16320, math.MaxUint32} {
			out = append(out, FileSpec{Enc: enc, Target: tg, Chunks: []Chunk{{{N: 30, ID: 9, Step: 2, V: 100, VStep: -900}}, {{N: 5, ID: 1, Step: 0, V: 3, VStep: 0}}}})
		}
	}
	// many blocks
	for i, n := range []int{72, 73, 74, 300, 1200} {
		out = append(out, FileSpec{Enc: uint32(i) * 3 % 8, Target: 1, Split: 1, Chunks: []Chunk{{{N: n, ID: 70, Step: 7, V: -5, VStep: 3}}}})
	}
	out = append(out, FileSpec{Zero: true, Chunks: []Chunk{{{N: 3, ID: 70, Step: 7, V: -5, VStep: 3}}, {{N: 1, ID: 7}}}})
	// one long varint block
	out = append(out, FileSpec{Enc: 7, Target: 1 << 20, Chunks: []Chunk{{{N: 70000, ID: 1, Step: 1, V: 1, VStep: 1}}}})
	out = append(out, FileSpec{Enc: 0, Target: 1 << 22, Chunks: []Chunk{{{N: 70000, ID: math.MaxUint64, Step: math.MaxUint64, V: 1, VStep: 1}}}})
	return out
}

func classifyFile(e *Env, f FileSpec, blocks []Pairs) {
	e.Class(fmt.Sprintf("enc %d", f.Enc))
	switch {
	case len(blocks) == 0:
		e.Class("no blocks")
	case len(blocks) == 1:
		e.Class("1 block")
	case len(blocks) <= 4:
		e.Class("2-4 blocks")
	default:
		e.Class(">4 blocks")
	}
	e.ClassIf(len(blocks) > len(f.Chunks), "block split by size target")
	n := f.N()
	e.ClassIf(n >= 1000, ">=1000 pairs")
	sorted, dup, wrap, neg, minv := true, false, false, false, false
	for _, b := range blocks {
		for i := range b.IDs {
			if i > 0 {
				if b.IDs[i] < b.IDs[i-1] {
					sorted = false
				}
				if b.IDs[i] == b.IDs[i-1] {
					dup = true
				}
				if d := b.Vals[i] - b.Vals[i-1]; (d > 0) != (b.Vals[i] > b.Vals[i-1]) {
					wrap = true
				}
			}
			neg = neg || b.Vals[i] < 0
			minv = minv || b.Vals[i] == math.MinInt64
		}
	}
	e.ClassIf(!sorted, "unsorted ids in a block")
	e.ClassIf(dup, "adjacent equal ids")
	e.ClassIf(wrap, "value delta wraps around")
	e.ClassIf(neg, "negative values")
	e.ClassIf(minv, "smallest int64 stored")
}

func TestC01(t *testing.T) {
	Run(t, Prop[FileSpec]{
		ID:   "C01",
		Rule: "a case is one file: encoding 0-7, size target, list of block writes each given as segments of pairs (edge ids/values, runs, scattered, repeated); non-trivial = at least 2 pairs and (a non-raw encoding or at least 2 blocks)",
		Fixed: func() []FileSpec {
			// blocks of more than 2^20 pairs
			out := fixedFiles()
			for _, enc := range []uint32{0, 7} {
				out = append(out, FileSpec{Enc: enc, Target: math.MaxUint32, Chunks: []Chunk{{{N: 1<<20 + 70000, ID: 5, Step: 1, V: -9, VStep: 1}}, {{N: 3, ID: 9, V: -9}}}})
			}
			return out
		},
		Gen: func(t *rapid.T) FileSpec { return GenFile(t, 5) },
		Exec: func(e *Env, f FileSpec) error {
			path := e.Path()
			decoy(path, f)
			blocks, err := f.Write(path)
			if err != nil {
				return err
			}
			classifyFile(e, f, blocks)
			e.NonTrivial(f.N() >= 2 && (f.Enc != 0 || len(blocks) >= 2))
			return CheckFileHolds(path, blocks)
		},
	})
}

// SimpleOp is one call on a simple writer.
type SimpleOp struct {
	Kind   string `json:"kind"` // write, target
	Data   Chunk  `json:"data,omitempty"`
	Target int    `json:"target,omitempty"`
	Times  int    `json:"times,omitempty"` // the batch is passed so often (0: once),
	Shift  uint64 `json:"shift,omitempty"` // its ids moved on by so much each time
}

// batches are the batches the operation passes.
func (o SimpleOp) batches() []Pairs {
	var out []Pairs
	for i := 0; i < max(o.Times, 1); i++ {
		p := o.Data.Expand()
		for j := range p.IDs {
			p.IDs[j] += uint64(i) * o.Shift
			p.Vals[j] += int64(i)
		}
		out = append(out, p)
	}
	return out
}

// SimpleCase is a history of a simple writer.
type SimpleCase struct {
	Enc    uint32     `json:"enc"`
	Target uint32     `json:"target"`
	Zero   bool       `json:"zero,omitempty"` // target 0 given explicitly
	Ops    []SimpleOp `json:"ops"`
}

func genSimple(t *rapid.T) SimpleCase {
	c := SimpleCase{Enc: GenEnc(t), Target: GenTarget(t)}
	big := rapid.IntRange(0, 3).Draw(t, "big") == 3
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SimpleOp {
		if rapid.IntRange(0, 9).Draw(t, "op") == 9 {
			return SimpleOp{Kind: "target", Target: rapid.SampledFrom([]int{4096, 8192, 16384, 4032, 128 * 1024, 1, 200, 0, -1, 1 << 32, math.MaxInt, math.MaxUint32, 1<<32 + 8192}).Draw(t, "settarget")}
		}
		if big && rapid.Bool().Draw(t, "bigbatch") {
			n := rapid.SampledFrom([]int{400, 500, 997, 999, 1000, 1001, 1003, 1100, 1500, 2000, 2500}).Draw(t, "bign")
			s := GenSeg(t, Tiny)
			s.N = n
			if s.Step == 0 {
				s.Step = rapid.Uint64Range(0, 5).Draw(t, "bigstep")
			}
			return SimpleOp{Kind: "write", Data: append(Chunk{s}, GenChunk(t, Tiny, 2)...)}
		}
		if rapid.IntRange(0, 7).Draw(t, "many") == 7 { // many small batches
			return SimpleOp{
				Kind: "write", Data: GenChunk(t, Tiny, 2),
				Times: rapid.SampledFrom([]int{2, 7, 60, 129, 300, 700, 1100, 2600}).Draw(t, "times"),
				Shift: rapid.SampledFrom([]uint64{0, 1, 3, 1000, 1 << 20, 1 << 56, math.MaxUint64, math.MaxUint64 - 99}).Draw(t, "shift"),
			}
		}
		return SimpleOp{Kind: "write", Data: GenChunk(t, GenSize(t), 3)}
	}), 0, 7).Draw(t, "ops")
	lo := int64(1 << 40)
	if c.Target != 0 {
		lo = int64(c.Target)
	}
	for _, o := range c.Ops {
		if o.Kind == "target" && TargetOK(o.Target) {
			lo = min(lo, int64(o.Target))
		}
	}
	max := 6000
	if lo < 4096 {
		max = 1100
	}
	for i := range c.Ops {
		for j := range c.Ops[i].Data {
			s := &c.Ops[i].Data[j]
			if s.N > max {
				s.N = max
			}
			max -= s.N
		}
		if o := &c.Ops[i]; o.Times > 1 && o.Data.N() > 0 {
			o.Times = 1 + min(o.Times-1, max/o.Data.N())
			max -= (o.Times - 1) * o.Data.N()
		}
	}
	return c
}

func (c SimpleCase) options() []col.WriterOption {
	return FileSpec{Enc: c.Enc, Target: c.Target, Zero: c.Zero}.Options()
}

// simpleRun plays the history; the caller's slices are checked and then
// scrambled after every call.
func simpleRun(path string, c SimpleCase) (Pairs, error) {
	var all Pairs
	w, err := col.NewSimpleWriter(path, c.options()...)
	if err != nil {
		return all, fmt.Errorf("new simple writer: %w", err)
	}
	total := uint64(0)
	for i, op := range c.Ops {
		if n := w.TotalItems(); n < total || n > uint64(all.Len()) {
			return all, fmt.Errorf("op %d: total items %d after %d, with %d pairs passed", i, n, total, all.Len())
		} else {
			total = n
		}
		if w.IsClosed() {
			return all, fmt.Errorf("op %d: closed before being closed", i)
		}
		switch op.Kind {
		case "target":
			if err := w.SetTargetBlockSize(op.Target); (err == nil) != TargetOK(op.Target) {
				return all, fmt.Errorf("op %d: set target %d: error is %v", i, op.Target, err)
			}
		default:
			for k, p := range op.batches() {
				keep := p.Clone()
				if err := w.Write(p.IDs, p.Vals); err != nil {
					return all, fmt.Errorf("op %d.%d: write %d pairs: %w", i, k, p.Len(), err)
				}
				if err := SamePairs(keep, p); err != nil {
					return all, fmt.Errorf("op %d.%d: caller's slices modified: %w", i, k, err)
				}
				all.Append(keep)
				for j := range p.IDs {
					p.IDs[j], p.Vals[j] = ^p.IDs[j], ^p.Vals[j]
				}
				if n := w.TotalItems(); n < total || n > uint64(all.Len()) {
					return all, fmt.Errorf("op %d.%d: total items %d after %d, with %d pairs passed", i, k, n, total, all.Len())
				}
			}
		}
	}
	if err := w.Close(); err != nil {
		return all, fmt.Errorf("close: %w", err)
	}
	if !w.IsClosed() {
		return all, errors.New("not closed after a successful close")
	}
	if w.TotalItems() != uint64(all.Len()) {
		return all, fmt.Errorf("total items %d after writing %d pairs", w.TotalItems(), all.Len())
	}
	return all, nil
}

func fixedSimple() []SimpleCase {
	var out []SimpleCase
	for enc := uint32(0); enc < 8; enc++ {
		out = append(out, SimpleCase{Enc: enc})
		for _, n := range []int{1, 998, 999, 1000, 1001, 1019, 1020, 2037, 2500} {
			out = append(out, SimpleCase{Enc: enc, Ops: []SimpleOp{
				{Kind: "write", Data: Chunk{{N: n, ID: 100000, Step: 3, V: -5, VStep: 7}}},
				{Kind: "write", Data: Chunk{{N: 2, ID: 7, Step: 200000, V: 1, VStep: 1}}},
				{Kind: "write", Data: Chunk{{N: 600, ID: 50000, Step: 200, V: 1, VStep: -1, Mode: 3}}},
				{Kind: "write", Data: Chunk{{N: 600, ID: 50001, Step: 200, V: 1, VStep: -1, Mode: 1}}},
			}})
			out = append(out, SimpleCase{Enc: enc, Target: 4096, Ops: []SimpleOp{
				{Kind: "write", Data: Chunk{{N: n, ID: 3, Step: 2, V: math.MinInt64, VStep: 1 << 57}}},
				{Kind: "write", Data: Chunk{{N: n, ID: 4, Step: 2, V: 9, VStep: 1}}},
			}})
		}
		out = append(out, SimpleCase{Enc: enc, Ops: []SimpleOp{{Kind: "write", Data: edgeChunk(1)}, {Kind: "write", Data: edgeChunk(2)}}})
	}
	for _, enc := range []uint32{0, 3, 7} { // long runs of small batches
		for _, b := range []struct{ n, times int }{{1, 2600}, {2, 1100}, {9, 300}, {3, 700}, {40, 60}, {499, 9}, {334, 12}} {
			for _, shift := range []uint64{0, 1, 2000, math.MaxUint64 - 6} {
				seg := Seg{N: b.n, ID: 1 << 40, Step: 3, V: -9, VStep: 5}
				out = append(out, SimpleCase{Enc: enc, Ops: []SimpleOp{{Kind: "write", Data: Chunk{seg}, Times: b.times, Shift: shift}}})
				out = append(out, SimpleCase{Enc: enc, Ops: []SimpleOp{
					{Kind: "write", Data: Chunk{seg}, Times: b.times / 2, Shift: shift},
					{Kind: "target", Target: 4096},
					{Kind: "write"},
					{Kind: "write", Data: Chunk{seg}, Times: b.times / 2, Shift: shift},
					{Kind: "write", Data: Chunk{{N: 1001, ID: 77, Step: 2, V: 1, VStep: 1}}},
					{Kind: "target", Target: 16384},
					{Kind: "write", Data: Chunk{seg}, Times: 5, Shift: shift},
				}})
			}
		}
	}
	for _, enc := range []uint32{0, 7} {
		out = append(out, SimpleCase{Enc: enc, Ops: []SimpleOp{{Kind: "write", Data: Chunk{{N: 120000, ID: 1 << 35, Step: 90, V: -5, VStep: 7, Mode: 2}}}, {Kind: "write", Data: Chunk{{N: 700, ID: 5, Step: 1 << 20, V: 1, VStep: 1, Mode: 1}}}}})
	}
	return out
}

const simpleRule = "a case is a history of a simple writer: encoding, size target, batches (sorted, reversed, scattered, repeated ids; sizes around the 1000-pair flush) and target changes; non-trivial = at least 2 batches with pairs, or a batch that is unsorted or of >= 1000 pairs"

func simpleNonTrivial(e *Env, c SimpleCase, blocks int) {
	n, batches := 0, 0
	unsorted := false
	for _, o := range c.Ops {
		e.ClassIf(o.Kind == "target", "target change")
		if k := o.Data.N(); k > 0 {
			batches += max(o.Times, 1)
			n += k * max(o.Times, 1)
			e.ClassIf(o.Times >= 100, ">=100 batches in a row")
			e.ClassIf(k >= 1000, "batch of >=1000 pairs")
			p := o.Data.Expand()
			for i := 1; i < p.Len(); i++ {
				unsorted = unsorted || p.IDs[i] < p.IDs[i-1]
			}
		}
	}
	e.Class(fmt.Sprintf("enc %d", c.Enc))
	e.ClassIf(unsorted, "unsorted batch")
	e.ClassIf(batches > 1, ">1 batch")
	e.ClassIf(blocks > 1, ">1 block")
	e.NonTrivial(batches > 1 || unsorted || n >= 1000)
}

func TestC02(t *testing.T) {
	Run(t, Prop[SimpleCase]{
		ID: "C02", Rule: simpleRule, Fixed: fixedSimple, Gen: genSimple,
		Exec: func(e *Env, c SimpleCase) error {
			path := e.Path()
			all, err := simpleRun(path, c)
			if err != nil {
				return err
			}
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			got, err := ReadBlocks(r)
			if err != nil {
				return err
			}
			simpleNonTrivial(e, c, len(got))
			return SameMultiset(all, Flatten(got))
		},
	})
}

func TestC03(t *testing.T) {
	Run(t, Prop[SimpleCase]{
		ID: "C03", Rule: simpleRule, Fixed: fixedSimple, Gen: genSimple,
		Exec: func(e *Env, c SimpleCase) error {
			path := e.Path()
			all, err := simpleRun(path, c)
			if err != nil {
				return err
			}
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			got, err := ReadBlocks(r)
			if err != nil {
				return err
			}
			simpleNonTrivial(e, c, len(got))
			for bi, b := range got {
				for i := 1; i < b.Len(); i++ {
					if b.IDs[i] < b.IDs[i-1] {
						return fmt.Errorf("block %d: id %d at position %d follows id %d", bi, b.IDs[i], i, b.IDs[i-1])
					}
				}
			}
			// every id keeps its own value
			type pair struct {
				id uint64
				v  int64
			}
			have := map[pair]bool{}
			for i := range all.IDs {
				have[pair{all.IDs[i], all.Vals[i]}] = true
			}
			for bi, b := range got {
				for i := range b.IDs {
					if !have[pair{b.IDs[i], b.Vals[i]}] {
						return fmt.Errorf("block %d holds (%d,%d), which was never written", bi, b.IDs[i], b.Vals[i])
					}
				}
			}
			return nil
		},
	})
}

// FormatCase is a file made by either writer.
type FormatCase struct {
	Simple bool     `json:"simple"`
	File   FileSpec `json:"file"`
	// Retarget changes the size target of a simple writer after the k-th
	// batch, where not 0; one more entry applies before the first.
	Retarget []int `json:"retarget,omitempty"`
}

func genFormat(t *rapid.T) FormatCase {
	c := FormatCase{Simple: rapid.IntRange(0, 3).Draw(t, "simple") == 3, File: GenFile(t, 4)}
	if c.Simple && c.File.N() < 20000 && rapid.Bool().Draw(t, "retarget") {
		c.Retarget = rapid.SliceOfN(rapid.SampledFrom([]int{0, 4096, 4032, 16384, 1 << 20, 65536}), 1, 5).Draw(t, "targets")
	}
	return c
}

// simple is the history of a simple writer for the case.
func (c FormatCase) simple() SimpleCase {
	s := SimpleCase{Enc: c.File.Enc, Target: c.File.Target, Zero: c.File.Zero}
	retarget := func(k int) {
		if k < len(c.Retarget) && c.Retarget[k] != 0 {
			s.Ops = append(s.Ops, SimpleOp{Kind: "target", Target: c.Retarget[k]})
		}
	}
	retarget(0)
	for k, ch := range c.File.Chunks {
		s.Ops = append(s.Ops, SimpleOp{Kind: "write", Data: ch})
		if c.File.Split > 0 { // the same data in small batches as well
			s.Ops = append(s.Ops, SimpleOp{Kind: "write", Data: ch[:1]})
		}
		retarget(k + 1)
	}
	return s
}

// target is the size target in force at the end.
func (c FormatCase) target() uint32 {
	v := c.File.EffTarget()
	if c.Simple {
		for k, x := range c.Retarget {
			if x != 0 && k <= len(c.File.Chunks) {
				v = uint32(x)
			}
		}
	}
	return v
}

func TestC04(t *testing.T) {
	Run(t, Prop[FormatCase]{
		ID:   "C04",
		Rule: "a case is one file made by the block writer or the simple writer; it is decoded by an independent strict decoder; non-trivial = at least 2 pairs and (a non-raw encoding or at least 2 blocks)",
		Fixed: func() []FormatCase {
			var out []FormatCase
			for _, f := range fixedFiles() {
				out = append(out, FormatCase{File: f})
			}
			return out
		},
		Gen: genFormat,
		Exec: func(e *Env, c FormatCase) error {
			path := e.Path()
			var blocks []Pairs
			var all Pairs
			if c.Simple {
				s := c.simple()
				var err error
				if all, err = simpleRun(path, s); err != nil {
					return err
				}
			} else {
				var err error
				if blocks, err = c.File.Write(path); err != nil {
					return err
				}
				all = Flatten(blocks)
			}
			p, err := Parse(MustRead(path))
			if err != nil {
				return fmt.Errorf("independent decoder: %w", err)
			}
			e.ClassIf(c.Simple, "simple writer")
			classifyFile(e, c.File, blocks)
			e.NonTrivial(c.File.N() >= 2 && (c.File.Enc != 0 || len(p.Blocks) >= 2))
			if p.Enc != c.File.Enc {
				return fmt.Errorf("header encoding %d, want %d", p.Enc, c.File.Enc)
			}
			if p.Target != c.target() {
				return fmt.Errorf("header size target %d, want %d", p.Target, c.target())
			}
			var got []Pairs
			for i := range p.Blocks {
				if err := p.Blocks[i].CheckStats(p.Enc); err != nil {
					return fmt.Errorf("block %d: %w", i, err)
				}
				got = append(got, p.Blocks[i].Pairs)
			}
			if c.Simple {
				if err := SameMultiset(all, Flatten(got)); err != nil {
					return err
				}
			} else if err := SameBlocks(blocks, got); err != nil {
				return err
			}
			return SameBitmap(all.IDSet(), p.Bitmap)
		},
	})
}

// SizeCase is a file written while its block sizes are predicted.
type SizeCase struct {
	File FileSpec `json:"file"`
	Tail int      `json:"tail"` // pairs offered per resubmission, 0 = whole tail
	// Reuse passes everything in the same two slices, in which first other
	// pairs are estimated.
	Reuse bool `json:"reuse,omitempty"`
}

func TestC13(t *testing.T) {
	Run(t, Prop[SizeCase]{
		ID:   "C13",
		Rule: "a case is one file written while an independent encoder predicts, from the file position, the size of every block and the longest prefix that fits; non-trivial = some write had to be split or a block ended within 64 bytes of the target",
		Fixed: func() []SizeCase {
			var out []SizeCase
			for _, f := range fixedFiles() {
				if f.N() < 10000 {
					out = append(out, SizeCase{File: f}, SizeCase{File: f, Reuse: true})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) SizeCase {
			return SizeCase{File: GenFile(t, 4), Tail: rapid.SampledFrom([]int{0, 0, 0, 1, 300}).Draw(t, "tail"), Reuse: rapid.Bool().Draw(t, "reuse")}
		},
		Exec: func(e *Env, c SizeCase) error {
			path := e.Path()
			w, err := col.NewWriter(path, c.File.Options()...)
			if err != nil {
				return fmt.Errorf("new writer: %w", err)
			}
			done := false
			defer func() {
				if !done {
					w.Close()
				}
			}()
			off, target := uint64(HeaderLen), uint64(c.File.EffTarget())
			var sizes []uint64
			var blocks []Pairs
			var buf Pairs
			for _, rest := range c.File.Calls() {
				for rest.Len() > 0 {
					p := rest
					if c.Tail > 0 && c.Tail < p.Len() && len(blocks)%2 == 1 {
						p = p.Slice(0, c.Tail)
					}
					whole := EncodedBlockSize(p, c.File.Enc, off)
					keep := p
					if c.Reuse {
						for buf.Len() < p.Len() {
							buf.Add(0, 0)
						}
						p = buf.Slice(0, p.Len())
						for i := range p.IDs {
							p.IDs[i], p.Vals[i] = keep.IDs[i]>>32, ^keep.Vals[i]<<9
						}
						est, err := w.EstimateBlockSize(p.IDs, p.Vals)
						if err != nil {
							return fmt.Errorf("estimate: %w", err)
						}
						if want := EncodedBlockSize(p, c.File.Enc, off); est != want {
							return fmt.Errorf("estimate for %d other pairs at offset %d is %d, true size %d", p.Len(), off, est, want)
						}
						copy(p.IDs, keep.IDs)
						copy(p.Vals, keep.Vals)
						e.Class("slices reused")
					}
					est, err := w.EstimateBlockSize(p.IDs, p.Vals)
					if err != nil {
						return fmt.Errorf("estimate: %w", err)
					}
					if est != whole {
						return fmt.Errorf("estimate for %d pairs at offset %d is %d, true size %d", p.Len(), off, est, whole)
					}
					want := p.Len()
					if whole > target && p.Len() > 1 {
						want = longestPrefix(p, c.File.Enc, off, target)
						e.Class("split")
						e.NonTrivial(true)
					}
					size := EncodedBlockSize(p.Slice(0, want), c.File.Enc, off)
					if size <= target && target-size < 64 {
						e.Class("ends near target")
						e.NonTrivial(true)
					}
					if want > 1 {
						est2, err := w.EstimateBlockSize(p.IDs[:want], p.Vals[:want])
						if err != nil || est2 != size {
							return fmt.Errorf("estimate for %d pairs at offset %d is %d (%v), true size %d", want, off, est2, err, size)
						}
					}
					err = w.WriteBlock(p.IDs, p.Vals)
					var full *col.BlockFullError
					switch {
					case err == nil:
						if want != p.Len() {
							return fmt.Errorf("%d pairs at offset %d accepted whole (%d bytes) although only %d fit the target %d", p.Len(), off, whole, want, target)
						}
					case errors.As(err, &full):
						if want == p.Len() {
							return fmt.Errorf("block full after %d of %d pairs although all fit (%d bytes, target %d)", full.ItemsWritten, p.Len(), whole, target)
						}
						if full.ItemsWritten != want {
							return fmt.Errorf("block full after %d pairs, longest fitting prefix is %d (target %d, offset %d)", full.ItemsWritten, want, target, off)
						}
					default:
						return fmt.Errorf("write block: %w", err)
					}
					if err := SamePairs(keep, p); err != nil {
						return fmt.Errorf("caller's slices modified: %w", err)
					}
					blocks = append(blocks, keep.Slice(0, want))
					sizes = append(sizes, size)
					off += size
					rest = rest.Slice(want, rest.Len())
				}
			}
			if err := w.FinalizeAndClose(); err != nil {
				return fmt.Errorf("finalize: %w", err)
			}
			done = true
			e.Class(fmt.Sprintf("enc %d", c.File.Enc))
			pf, err := Parse(MustRead(path))
			if err != nil {
				return fmt.Errorf("independent decoder: %w", err)
			}
			if len(pf.Blocks) != len(sizes) {
				return fmt.Errorf("%d blocks in the file, %d written", len(pf.Blocks), len(sizes))
			}
			for i, b := range pf.Blocks {
				if b.Size != sizes[i] {
					return fmt.Errorf("block %d takes %d bytes, want %d", i, b.Size, sizes[i])
				}
				if err := SamePairs(blocks[i], b.Pairs); err != nil {
					return fmt.Errorf("block %d: %w", i, err)
				}
				if b.Size > target && b.Count > 1 {
					return fmt.Errorf("block %d of %d pairs takes %d bytes, target %d", i, b.Count, b.Size, target)
				}
			}
			return nil
		},
	})
}

func TestC13Simple(t *testing.T) {
	Run(t, Prop[SimpleCase]{
		ID: "C13", Part: "simple",
		Rule:  "a case is a history of a simple writer, its blocks compared with the size target in force when they were written; non-trivial = at least 2 blocks written under one target",
		Fixed: fixedSimple, Gen: genSimple,
		Exec: func(e *Env, c SimpleCase) error {
			path := e.Path()
			w, err := col.NewSimpleWriter(path, c.options()...)
			if err != nil {
				return fmt.Errorf("new simple writer: %w", err)
			}
			defer w.Close()
			target := uint64(FileSpec{Target: c.Target, Zero: c.Zero}.EffTarget())
			type mark struct{ n, target uint64 } // pairs written so far, under which target
			var marks []mark
			for i, op := range c.Ops {
				if op.Kind == "target" {
					if err := w.SetTargetBlockSize(op.Target); (err == nil) != TargetOK(op.Target) {
						return fmt.Errorf("op %d: set target %d: error is %v", i, op.Target, err)
					}
					if TargetOK(op.Target) {
						target = uint64(op.Target)
					}
					continue
				}
				for k, p := range op.batches() {
					if err := w.Write(p.IDs, p.Vals); err != nil {
						return fmt.Errorf("op %d.%d: write %d pairs: %w", i, k, p.Len(), err)
					}
					marks = append(marks, mark{w.TotalItems(), target})
				}
			}
			if err := w.Close(); err != nil {
				return fmt.Errorf("close: %w", err)
			}
			marks = append(marks, mark{w.TotalItems(), target})
			pf, err := Parse(MustRead(path))
			if err != nil {
				return fmt.Errorf("independent decoder: %w", err)
			}
			n, m := uint64(0), 0
			for i, b := range pf.Blocks {
				n += uint64(b.Count)
				for m < len(marks) && marks[m].n < n {
					m++
				}
				if m == len(marks) {
					return fmt.Errorf("block %d ends after %d pairs, %d were counted", i, n, w.TotalItems())
				}
				if b.Size > marks[m].target && b.Count > 1 {
					return fmt.Errorf("block %d of %d pairs takes %d bytes, target %d", i, b.Count, b.Size, marks[m].target)
				}
				if n == marks[m].n || i+1 == len(pf.Blocks) {
					continue
				}
				// the next block was written by the same call
				e.NonTrivial(true)
				e.Class("split")
				next := pf.Blocks[i+1].Pairs
				more := b.Pairs.Clone()
				more.Append(next.Slice(0, 1))
				if s := EncodedBlockSize(more, c.Enc, b.Offset); s <= marks[m].target {
					return fmt.Errorf("block %d holds %d pairs although one more fits (%d bytes, target %d)", i, b.Count, s, marks[m].target)
				}
			}
			return nil
		},
	})
}

// longestPrefix is the largest proper prefix (at least 1) that fits; block
// size grows with the prefix, so bisection suffices.
func longestPrefix(p Pairs, enc uint32, off, target uint64) int {
	lo, hi := 1, p.Len()-1
	for lo < hi {
		m := (lo + hi + 1) / 2
		if EncodedBlockSize(p.Slice(0, m), enc, off) <= target {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return lo
}

func TestC14(t *testing.T) {
	Run(t, Prop[FormatCase]{
		ID:   "C14",
		Rule: "a case is one file made by the block writer or the simple writer whose recorded offsets, sizes and padding are checked byte by byte; non-trivial = at least 1 block",
		Fixed: func() []FormatCase {
			var out []FormatCase
			for _, f := range fixedFiles() {
				out = append(out, FormatCase{File: f})
			}
			// sizes that make the block end move over a page border
			for n := 240; n <= 256; n++ {
				out = append(out, FormatCase{File: FileSpec{Enc: 0, Target: 65536, Chunks: []Chunk{{{N: n, ID: 1, Step: 1}}, {{N: n, ID: 1, Step: 1}}, {{N: 2 * n, ID: 1, Step: 1}}}}})
			}
			for n := 3900; n <= 4040; n += 7 {
				out = append(out, FormatCase{File: FileSpec{Enc: 4, Target: 65536, Chunks: []Chunk{{{N: n / 2, ID: 1}}, {{N: (n + 1) / 2, ID: 128, V: 1}}}}})
			}
			return out
		},
		Gen: genFormat,
		Exec: func(e *Env, c FormatCase) error {
			path := e.Path()
			var blocks []Pairs
			if c.Simple {
				s := c.simple()
				if _, err := simpleRun(path, s); err != nil {
					return err
				}
			} else {
				var err error
				if blocks, err = c.File.Write(path); err != nil {
					return err
				}
			}
			b := MustRead(path)
			p, err := Parse(b)
			if err != nil {
				return fmt.Errorf("independent decoder: %w", err)
			}
			e.ClassIf(c.Simple, "simple writer")
			classifyFile(e, c.File, blocks)
			e.NonTrivial(len(p.Blocks) > 0)
			zero := func(what string, i, j uint64) error {
				for k := i; k < j; k++ {
					if b[k] != 0 {
						return fmt.Errorf("%s: byte %d is %#x, want zero padding", what, k, b[k])
					}
				}
				return nil
			}
			pos := uint64(HeaderLen)
			for i, k := range p.Blocks {
				if k.Offset != pos {
					return fmt.Errorf("block %d starts at %d, want %d", i, k.Offset, pos)
				}
				pos += k.Size
				if pos%Page != 0 {
					return fmt.Errorf("block %d ends at %d, not on a page boundary", i, pos)
				}
				if k.Size-k.Used >= Page {
					return fmt.Errorf("block %d has %d bytes of padding", i, k.Size-k.Used)
				}
				if err := zero(fmt.Sprintf("block %d", i), k.Offset+k.Used, k.Offset+k.Size); err != nil {
					return err
				}
				// sections do not overlap
				if k.IDOff < k.ValOff+k.ValSize && k.ValOff < k.IDOff+k.IDSize {
					return fmt.Errorf("block %d: sections overlap", i)
				}
			}
			if p.BitmapOff != pos {
				return fmt.Errorf("bitmap at %d, want %d", p.BitmapOff, pos)
			}
			pos += p.BitmapSize
			if p.FooterStart%Page != 0 || p.FooterStart < pos || p.FooterStart-pos >= Page {
				return fmt.Errorf("footer starts at %d, bitmap ends at %d", p.FooterStart, pos)
			}
			if err := zero("before the footer", pos, p.FooterStart); err != nil {
				return err
			}
			if p.FooterStart+p.FooterSize+TrailerLen != uint64(len(b)) {
				return fmt.Errorf("footer ends at %d in a file of %d bytes", p.FooterStart+p.FooterSize+TrailerLen, len(b))
			}
			return nil
		},
	})
}
