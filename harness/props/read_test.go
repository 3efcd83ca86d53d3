package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"testing"

	. "vibeverif/core"

	"github.com/weaviate/sroar"
	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// ---------------------------------------------------------------- filters

// FilterCase is a file and the filters applied to it.
type FilterCase struct {
	File    FileSpec `json:"file"`
	Allow   Filter   `json:"allow"`
	Deny    Filter   `json:"deny"`
	Workers []int    `json:"workers,omitempty"`
	Procs   int      `json:"procs,omitempty"` // GOMAXPROCS meanwhile; 0 = as it is
}

// many small blocks, so that filters select some of them
func genBlocksFile(t *rapid.T) FileSpec {
	f := genOwnFile(t)
	f.Layout = GenLayout(t, false)
	return f
}

func genOwnFile(t *rapid.T) FileSpec {
	if rapid.IntRange(0, 2).Draw(t, "filekind") == 0 {
		return GenFile(t, 5)
	}
	return GenSmallFile(t, 8)
}

func genFilterCase(t *rapid.T) FilterCase {
	c := FilterCase{File: genOwnFile(t)}
	c.File.Layout = GenLayout(t, true)
	ids := SpecIDs(c.File)
	c.Allow = GenFilter(t, ids, "allow")
	c.Deny = GenFilter(t, ids, "deny")
	return c
}

// fixedFilterCases cross every kind of filter with files whose blocks start
// at id 0, end at the largest id, are disjoint, nested or all equal.
func fixedFilterCases() []FilterCase {
	mk := func(enc uint32, segs ...Seg) FileSpec {
		f := FileSpec{Enc: enc}
		for _, s := range segs {
			f.Chunks = append(f.Chunks, Chunk{s})
		}
		return f
	}
	files := []FileSpec{
		{Enc: 1, Layout: &Layout{NoBitmap: true, Reverse: true, Blocks: []BlockLayoutSpec{{ValFirst: true, GapB: 3, Skip: 5}, {Page: true}}},
			Chunks: []Chunk{{{N: 5, ID: 0, Step: 1, V: 3, VStep: 2}}, {{N: 5, ID: 10, Step: 1, V: -30, VStep: 2}}, {{N: 5, ID: 20, Step: 1, V: math.MinInt64, VStep: 1}}}},
		mk(0),
		mk(0, Seg{N: 5, ID: 0, Step: 1, V: -3, VStep: 2}),
		{Enc: 2, Target: 1, Split: 1, Chunks: []Chunk{{{N: 270, ID: 0, Step: 1, V: -3, VStep: 2}}}},
		mk(7, Seg{N: 5, ID: 0, Step: 1, V: 3, VStep: 2}, Seg{N: 5, ID: 10, Step: 1, V: -30, VStep: 2}, Seg{N: 5, ID: 20, Step: 1, V: math.MinInt64, VStep: 1}),
		mk(3, Seg{N: 3, ID: math.MaxUint64 - 2, Step: 1, V: math.MaxInt64, VStep: -1}, Seg{N: 3, ID: 0, Step: 1 << 62, V: -1, VStep: -1}),
		mk(4, Seg{N: 4, ID: 7, Step: 0, V: 1, VStep: 1}, Seg{N: 4, ID: 7, Step: 0, V: 5, VStep: 1}, Seg{N: 1, ID: 65536, V: 100}),
		mk(5, Seg{N: 10, ID: 100, Step: 10, V: 0, VStep: 1, Mode: 1}, Seg{N: 2, ID: 101, Step: 88, V: -50, VStep: 1}, Seg{N: 3, ID: 140, Step: 1, V: 9, VStep: 9, Mode: 2}),
	}
	filters := []Filter{{Nil: true}, {}, {IDs: []uint64{0}}, {IDs: []uint64{5}}, {IDs: []uint64{7}}, {IDs: []uint64{9, 15}}, {IDs: []uint64{math.MaxUint64}},
		{IDs: []uint64{0, math.MaxUint64}}, {From: 10, Len: 5}, {From: 0, Len: 200}, {IDs: []uint64{4, 10}}, {IDs: []uint64{14, 20}}, {IDs: []uint64{65536}}, {IDs: []uint64{1 << 62, 1 << 63}}}
	var out []FilterCase
	for _, f := range files {
		for _, a := range filters {
			for _, d := range filters {
				out = append(out, FilterCase{File: f, Allow: a, Deny: d, Workers: []int{-1, 1, 2, 3, 5, math.MaxInt, math.MinInt}})
			}
		}
	}
	many := manyBlocks()
	none := Filter{Nil: true}
	for _, ad := range [][2]Filter{{none, none}, {{From: 60, Len: 66000}, none}, {none, {From: 65000, Len: 1000}}, {{IDs: []uint64{5, 65536, 69999}}, {IDs: []uint64{5}}}} {
		out = append(out, FilterCase{File: many, Allow: ad[0], Deny: ad[1], Workers: []int{-1, 2, 3, 8, 100}})
	}
	return out
}

// manyBlocks is a file of 70000 blocks of one pair, laid out without padding.
func manyBlocks() FileSpec {
	return FileSpec{Enc: 4, Split: 1, Chunks: []Chunk{{{N: 70000, ID: 0, Step: 1, V: -100, VStep: 3}}}, Layout: &Layout{Blocks: []BlockLayoutSpec{{}}}}
}

func bitmapArray(b *sroar.Bitmap) []uint64 {
	if b == nil {
		return nil
	}
	return append([]uint64(nil), b.ToArray()...)
}

func sameArray(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func classifyFilter(e *Env, c FilterCase, blocks []Pairs, sel Pairs) {
	n := c.File.N()
	e.Class("allow " + kindOf(c.Allow) + ", deny " + kindOf(c.Deny))
	switch {
	case n == 0:
		e.Class("empty file")
	case sel.Len() == 0:
		e.Class("nothing selected")
	case sel.Len() == n:
		e.Class("everything selected")
	default:
		e.Class("part selected")
	}
	e.ClassIf(len(blocks) > 1, ">1 block")
}

func kindOf(f Filter) string {
	switch {
	case f.Nil:
		return "none"
	case len(f.IDs) == 0 && f.Len == 0:
		return "empty"
	case f.Len > 0:
		return "dense"
	}
	return "sparse"
}

func TestC06(t *testing.T) {
	Run(t, Prop[FileSpec]{
		ID:   "C06",
		Rule: "a case is one file; its unfiltered aggregate from metadata and by scanning is compared with the model; non-trivial = at least 2 blocks with pairs, or negative or extreme values",
		Fixed: func() []FileSpec {
			out := append(fixedFiles(), manyBlocks())
			for _, v := range EdgeVals {
				for _, w := range EdgeVals {
					out = append(out, FileSpec{Enc: uint32(len(out) % 8), Chunks: []Chunk{{{N: 1, ID: 1, V: v}}, {{N: 1, ID: 2, V: w}}}})
				}
			}
			return out
		},
		Gen: genBlocksFile,
		Exec: func(e *Env, f FileSpec) error {
			path := e.Path()
			decoy(path, f)
			blocks, err := f.Write(path)
			if err != nil {
				return err
			}
			classifyFile(e, f, blocks)
			all := Flatten(blocks)
			want := Agg(all)
			e.NonTrivial(len(blocks) >= 2 || want.Min < 0 || want.Max > 1<<40)
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			if err := SameAgg(want, r.Aggregate()); err != nil {
				return fmt.Errorf("default aggregate: %w", err)
			}
			if err := SameAgg(want, r.AggregateWithOptions(col.AggregateOptions{})); err != nil {
				return fmt.Errorf("from metadata: %w", err)
			}
			if err := SameAgg(want, r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})); err != nil {
				return fmt.Errorf("by scanning: %w", err)
			}
			if err := SameAgg(want, r.AggregateWithOptions(col.DefaultAggregateOptions())); err != nil {
				return fmt.Errorf("default options: %w", err)
			}
			return nil
		},
	})
}

func TestC07(t *testing.T) {
	Run(t, Prop[FilterCase]{
		ID:    "C07",
		Rule:  "a case is one file with an allow and a deny bitmap (none, empty, sparse or dense, drawn near the file's ids); non-trivial = some but not all pairs are selected, or none although an allow bitmap with ids is given",
		Fixed: fixedFilterCases,
		Gen:   genFilterCase,
		Exec: func(e *Env, c FilterCase) error {
			path := e.Path()
			decoy(path, c.File)
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			all := Flatten(blocks)
			sel := all.Select(c.Allow.Set(), c.Deny.Set())
			classifyFilter(e, c, blocks, sel)
			e.NonTrivial((sel.Len() > 0 && sel.Len() < all.Len()) || (sel.Len() == 0 && kindOf(c.Allow) == "sparse" && all.Len() > 0))
			want := Agg(sel)
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			allow, deny := c.Allow.Bitmap(), c.Deny.Bitmap()
			a0, d0 := bitmapArray(allow), bitmapArray(deny)
			for _, skip := range []bool{false, true} {
				got := r.AggregateWithOptions(col.AggregateOptions{Filter: allow, DenyFilter: deny, SkipPreCalculated: skip})
				if err := SameAgg(want, got); err != nil {
					return fmt.Errorf("skip metadata %v: %w", skip, err)
				}
			}
			if !sameArray(a0, bitmapArray(allow)) || !sameArray(d0, bitmapArray(deny)) {
				return fmt.Errorf("a bitmap passed in was modified")
			}
			// same bitmap on both sides selects nothing
			if allow != nil {
				got := r.AggregateWithOptions(col.AggregateOptions{Filter: allow, DenyFilter: allow})
				if err := SameAgg(col.AggregateResult{}, got); err != nil {
					return fmt.Errorf("allow = deny: %w", err)
				}
			}
			return nil
		},
	})
}

func TestC08(t *testing.T) {
	Run(t, Prop[FilterCase]{
		ID:    "C08",
		Rule:  "a case is one file, an allow and a deny bitmap and a list of worker counts; non-trivial = at least 2 blocks and a worker count other than 1",
		Fixed: fixedFilterCases,
		Gen: func(t *rapid.T) FilterCase {
			c := genFilterCase(t)
			c.Workers = rapid.SliceOfN(rapid.SampledFrom([]int{-1, 2, 3, 4, 5, 7, 8, 16, 1, 64, 1000, 1 << 16, math.MaxInt, -7, math.MinInt32, math.MinInt}), 1, 3).Draw(t, "workers")
			c.Procs = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 64}).Draw(t, "procs")
			return c
		},
		Exec: func(e *Env, c FilterCase) error {
			if c.Procs > 0 {
				defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
				e.Class(fmt.Sprintf("%d processors", c.Procs))
			}
			path := e.Path()
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			all := Flatten(blocks)
			sel := all.Select(c.Allow.Set(), c.Deny.Set())
			classifyFilter(e, c, blocks, sel)
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			ws := append([]int{len(blocks), len(blocks) + 1, len(blocks) - 1}, c.Workers...)
			for _, skip := range []bool{false, true} {
				o := col.AggregateOptions{Filter: c.Allow.Bitmap(), DenyFilter: c.Deny.Bitmap(), SkipPreCalculated: skip}
				want := r.AggregateWithOptions(o)
				if err := SameAgg(Agg(sel), want); err != nil {
					return fmt.Errorf("sequential: %w", err)
				}
				for _, w := range ws {
					o.Parallel = w
					e.NonTrivial(len(blocks) >= 2 && w != 1 && w != 0)
					if err := SameAgg(want, r.AggregateWithOptions(o)); err != nil {
						return fmt.Errorf("%d workers, %d blocks, skip metadata %v: %w", w, len(blocks), skip, err)
					}
				}
			}
			return nil
		},
	})
}

func TestC09(t *testing.T) {
	Run(t, Prop[FilterCase]{
		ID:    "C09",
		Rule:  "a case is one file with an allow and a deny bitmap; the candidate block list is compared with the blocks' true contents and id ranges; non-trivial = at least 2 blocks and an allow bitmap that some but not all blocks' ranges overlap",
		Fixed: fixedFilterCases,
		Gen:   genFilterCase,
		Exec: func(e *Env, c FilterCase) error {
			path := e.Path()
			decoy(path, c.File)
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			classifyFilter(e, c, blocks, Flatten(blocks).Select(c.Allow.Set(), c.Deny.Set()))
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			got := r.FilteredBlockIterator(c.Allow.Bitmap(), c.Deny.Bitmap())
			in := map[uint64]bool{}
			for i, b := range got {
				if b >= uint64(len(blocks)) {
					return fmt.Errorf("candidate %d in a file of %d blocks", b, len(blocks))
				}
				if i > 0 && got[i-1] >= b {
					return fmt.Errorf("candidates %d and %d are out of order or repeated", got[i-1], b)
				}
				in[b] = true
			}
			allow, deny := c.Allow.Set(), c.Deny.Set()
			if c.Allow.Nil {
				if len(got) != len(blocks) {
					return fmt.Errorf("%d candidates of %d blocks without an allow bitmap", len(got), len(blocks))
				}
				return nil
			}
			var lo, hi uint64
			first := true
			for id := range allow {
				if first || id < lo {
					lo = id
				}
				if first || id > hi {
					hi = id
				}
				first = false
			}
			overlap := 0
			for i, b := range blocks {
				if b.Select(allow, deny).Len() > 0 && !in[uint64(i)] {
					return fmt.Errorf("block %d holds matching ids but is not a candidate", i)
				}
				mn, mx := b.IDs[0], b.IDs[0]
				for _, id := range b.IDs {
					mn, mx = min(mn, id), max(mx, id)
				}
				if !first && (mx < lo || mn > hi) {
					if in[uint64(i)] {
						return fmt.Errorf("block %d with ids %d..%d is a candidate for allowed ids %d..%d", i, mn, mx, lo, hi)
					}
				} else {
					overlap++
				}
			}
			e.NonTrivial(len(blocks) >= 2 && !first && overlap > 0 && overlap < len(blocks))
			return nil
		},
	})
}

// BitmapCase is a file and a history of cache switches and lookups.
type BitmapCase struct {
	File FileSpec `json:"file"`
	Ops  []string `json:"ops"`
}

func TestC10(t *testing.T) {
	Run(t, Prop[BitmapCase]{
		ID:   "C10",
		Rule: "a case is one file and a history of enable/disable caching, bitmap lookups and aggregations; non-trivial = at least 3 distinct ids and 2 lookups",
		Fixed: func() []BitmapCase {
			ops := []string{"get", "on", "get", "get", "off", "get", "on", "get", "agg", "get"}
			var out []BitmapCase
			for _, f := range fixedFiles() {
				if f.N() < 60000 {
					out = append(out, BitmapCase{f, ops})
				}
			}
			for _, n := range []int{4000, 4096, 4097, 5000, 65535, 65536, 65537} {
				for _, st := range []uint64{1, 2, 3, 15, 16, 17, 40} {
					out = append(out, BitmapCase{FileSpec{Target: 1 << 22, Enc: 7, Chunks: []Chunk{{{N: n, ID: 65500, Step: st}}}}, ops})
				}
			}
			// many containers
			out = append(out, BitmapCase{FileSpec{Target: 1 << 24, Enc: 7, Chunks: []Chunk{{{N: 60000, ID: 9, Step: 65536}}, {{N: 1, ID: 5}}, {{N: 200, ID: 1 << 50, Step: 65535}}}}, []string{"get", "on", "get"}})
			for i := uint64(0); i < 64; i++ {
				out = append(out, BitmapCase{FileSpec{Enc: 0, Chunks: []Chunk{{{N: 3, ID: 1 << i, Step: 1}}, {{N: 300, ID: 1<<i - 1, Step: 1 << 16}}}}, ops})
			}
			return out
		},
		Gen: func(t *rapid.T) BitmapCase {
			f := genBlocksFile(t)
			return BitmapCase{f, rapid.SliceOfN(rapid.SampledFrom([]string{"get", "get", "on", "off", "agg"}), 1, 8).Draw(t, "ops")}
		},
		Exec: func(e *Env, c BitmapCase) error {
			path := e.Path()
			decoy(path, c.File)
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			want := Flatten(blocks).IDSet()
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			gets := 0
			for i, op := range append(append([]string(nil), c.Ops...), "get") {
				switch op {
				case "on":
					r.EnableGlobalIDBitmapCaching()
				case "off":
					r.DisableGlobalIDBitmapCaching()
				case "agg":
					b, err := r.GetGlobalIDBitmap()
					if err != nil {
						return fmt.Errorf("op %d: %w", i, err)
					}
					r.AggregateWithOptions(col.AggregateOptions{Filter: b, DenyFilter: b})
					r.AggregateWithOptions(col.AggregateOptions{DenyFilter: b})
				default:
					gets++
					b, err := r.GetGlobalIDBitmap()
					if err != nil {
						return fmt.Errorf("op %d: %w", i, err)
					}
					if err := SameBitmap(want, b); err != nil {
						return fmt.Errorf("op %d: %w", i, err)
					}
					for id := range want {
						if !b.Contains(id) {
							return fmt.Errorf("op %d: bitmap does not contain %d", i, id)
						}
					}
				}
			}
			e.Class(fmt.Sprintf("enc %d", c.File.Enc))
			e.ClassIf(len(want) == 0, "empty file")
			e.ClassIf(len(want) > 4096, ">4096 ids")
			cont := map[uint64]bool{}
			for id := range want {
				cont[id>>16] = true
			}
			e.ClassIf(len(cont) > 2, ">2 containers")
			e.NonTrivial(len(want) >= 3 && gets >= 2)
			return nil
		},
	})
}

// writeHoled writes the file with a hole before block at, or before what
// follows the last block.
func writeHoled(path string, b []byte, hole uint64, at int) {
	le := binary.LittleEndian
	b = append([]byte(nil), b...)
	footer := uint64(len(b)-TrailerLen) - le.Uint64(b[len(b)-TrailerLen:])
	bm := le.Uint64(b[44:])
	n := int(le.Uint32(b[footer:]))
	cut := footer
	if bm != 0 {
		cut = min(cut, bm)
	}
	if at %= n + 1; at < n {
		cut = le.Uint64(b[footer+4+uint64(at)*EntryLen:])
	} else if n > 0 && bm < le.Uint64(b[footer+4:]) {
		cut = footer
	}
	if bm >= cut {
		le.PutUint64(b[44:], bm+hole)
	}
	for i := 0; i < n; i++ {
		e := b[footer+4+uint64(i)*EntryLen:]
		if off := le.Uint64(e); off >= cut {
			le.PutUint64(e, off+hole)
		}
	}
	f, err := os.Create(path)
	Must(err)
	defer f.Close()
	_, err = f.Write(b[:cut])
	Must(err)
	_, err = f.WriteAt(b[cut:], int64(cut+hole))
	Must(err)
}

// LayoutCase is a conforming file built by the independent encoder.
type LayoutCase struct {
	Enc         uint32            `json:"enc"`
	Target      uint32            `json:"target"`
	Created     uint64            `json:"created"`
	BitmapFirst bool              `json:"bitmapfirst"`
	NoBitmap    bool              `json:"nobitmap"`
	FooterSkip  int               `json:"footerskip"`
	Reverse     bool              `json:"reverse,omitempty"` // blocks stored in the opposite order of the index
	Layouts     []BlockLayoutSpec `json:"layouts"`
	Blocks      []Chunk           `json:"blocks"`
	// a hole of so many bytes before block HoleAt and all that follows
	Hole   uint64 `json:"hole,omitempty"`
	HoleAt int    `json:"holeat,omitempty"`
	Allow  Filter `json:"allow"`
	Deny   Filter `json:"deny"`
}

func TestC05(t *testing.T) {
	Run(t, Prop[LayoutCase]{
		ID:   "C05",
		Rule: "a case is one conforming file built by an independent encoder with its own choice of section order, gaps, padding, spacing, bitmap position or absence; non-trivial = at least 2 pairs and a layout the current writer does not produce",
		Fixed: func() []LayoutCase {
			var out []LayoutCase
			for enc := uint32(0); enc < 8; enc++ {
				for m := 0; m < 64; m++ {
					l := BlockLayoutSpec{ValFirst: m&1 != 0, GapA: (m >> 1 & 1) * 3, GapB: (m >> 2 & 1) * 5, Tail: (m >> 3 & 1) * 7, Page: m&16 != 0, Fill: 0xa5}
					out = append(out, LayoutCase{Enc: enc, Target: 16384, BitmapFirst: m&32 != 0, NoBitmap: m%5 == 4, Layouts: []BlockLayoutSpec{l},
						Blocks: []Chunk{edgeChunk(1 + m%3), {{N: 1, ID: 9, V: -9}}, {{N: 20, ID: 1000, Step: 3, V: -7, VStep: 5}}}, Allow: Filter{IDs: []uint64{9, 1003, 0}}, Deny: Filter{Nil: true}})
				}
			}
			// blocks of more than 2^20 pairs
			for i, enc := range []uint32{0, 3, 4, 7} {
				out = append(out, LayoutCase{Enc: enc, Target: math.MaxUint32, BitmapFirst: i == 1, NoBitmap: i == 2, Layouts: []BlockLayoutSpec{{ValFirst: i >= 2, Page: i != 3}},
					Blocks: []Chunk{{{N: 1<<20 + 70000, ID: 5, Step: 1, V: -9, VStep: 1}}, {{N: 3, ID: 9, V: -9}}}, Allow: Filter{From: 1 << 20, Len: 70000}, Deny: Filter{IDs: []uint64{9, 1 << 20}}})
			}
			for i, hole := range []uint64{1 << 31, 1<<32 - 4096, 1 << 32, 1 << 40} {
				for at := 0; at < 4; at++ {
					out = append(out, LayoutCase{Enc: uint32(i+at) % 8, Target: 4096, BitmapFirst: at == 1, Hole: hole, HoleAt: at, Layouts: []BlockLayoutSpec{{Page: true}},
						Blocks: []Chunk{{{N: 3, ID: 9, V: -9}}, {{N: 20, ID: 1000, Step: 3, V: -7, VStep: 5}}, edgeChunk(2)}, Allow: Filter{IDs: []uint64{9, 1003, 0}}, Deny: Filter{Nil: true}})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) LayoutCase {
			size := rapid.SampledFrom([]Size{Tiny, Tiny, Small, Mixed}).Draw(t, "size")
			c := LayoutCase{Enc: GenEnc(t), Target: GenTarget(t), Created: rapid.Uint64().Draw(t, "created"),
				BitmapFirst: rapid.Bool().Draw(t, "bmfirst"), NoBitmap: rapid.IntRange(0, 4).Draw(t, "nobm") == 4, FooterSkip: rapid.SampledFrom([]int{0, 1, 24, 4000}).Draw(t, "fskip")}
			c.Reverse = rapid.IntRange(0, 3).Draw(t, "reverse") == 3
			c.Layouts = rapid.SliceOfN(rapid.Custom(GenBlockLayout), 1, 3).Draw(t, "layouts")
			c.Blocks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Chunk { return GenChunk(t, size, 3) }), 0, 5).Draw(t, "blocks")
			if rapid.IntRange(0, 19).Draw(t, "hole") == 19 {
				c.Hole = rapid.SampledFrom([]uint64{1 << 31, 1<<31 - 64, 1 << 32, 1<<32 - 64, 1<<32 - 4096, 1<<32 + 4096, 5 << 32, 1 << 40}).Draw(t, "holesize")
				c.HoleAt = rapid.IntRange(0, 4).Draw(t, "holeat")
			}
			ids := SpecIDs(FileSpec{Chunks: c.Blocks})
			c.Allow, c.Deny = GenFilter(t, ids, "allow"), GenFilter(t, ids, "deny")
			return c
		},
		Exec: func(e *Env, c LayoutCase) error {
			var blocks []Pairs
			for _, ch := range c.Blocks {
				if p := ch.Expand(); p.Len() > 0 {
					blocks = append(blocks, p)
				}
			}
			b := Build(blocks, BuildOpts{Enc: c.Enc, Target: c.Target, Created: c.Created, BitmapFirst: c.BitmapFirst, NoBitmap: c.NoBitmap, FooterSkip: c.FooterSkip, Layouts: c.Layouts, Reverse: c.Reverse})
			path := e.Path()
			if c.Hole == 0 {
				Must(os.WriteFile(path, b, 0o644))
			} else {
				writeHoled(path, b, c.Hole, c.HoleAt)
				e.Class("beyond 2 GB")
			}
			all := Flatten(blocks)
			plain := len(c.Layouts) == 1 && c.Layouts[0] == (BlockLayoutSpec{Page: true}) && !c.BitmapFirst && !c.NoBitmap && !(c.Reverse && len(blocks) > 1)
			e.Class(fmt.Sprintf("enc %d", c.Enc))
			e.ClassIf(c.NoBitmap, "no bitmap")
			e.ClassIf(c.BitmapFirst, "bitmap first")
			e.ClassIf(c.Reverse && len(blocks) > 1, "blocks in another order")
			for _, l := range c.Layouts {
				e.ClassIf(l.ValFirst, "value section first")
				e.ClassIf(l.GapA+l.GapB+l.Tail > 0, "gaps")
				e.ClassIf(!l.Page, "unpadded")
			}
			e.NonTrivial(all.Len() >= 2 && !plain)
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			if r.BlockCount() != uint64(len(blocks)) || r.Version() != 1 || r.EncodingType() != c.Enc {
				return fmt.Errorf("%d blocks, version %d, encoding %d; want %d, 1, %d", r.BlockCount(), r.Version(), r.EncodingType(), len(blocks), c.Enc)
			}
			got, err := ReadBlocks(r)
			if err != nil {
				return err
			}
			if err := SameBlocks(blocks, got); err != nil {
				return err
			}
			want := Agg(all)
			for _, par := range []int{0, 3} {
				for _, skip := range []bool{false, true} {
					if err := SameAgg(want, r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: skip, Parallel: par})); err != nil {
						return fmt.Errorf("skip metadata %v, %d workers: %w", skip, par, err)
					}
				}
			}
			sel := Agg(all.Select(c.Allow.Set(), c.Deny.Set()))
			if err := SameAgg(sel, r.AggregateWithOptions(col.AggregateOptions{Filter: c.Allow.Bitmap(), DenyFilter: c.Deny.Bitmap()})); err != nil {
				return fmt.Errorf("filtered: %w", err)
			}
			bm, err := r.GetGlobalIDBitmap()
			if err != nil {
				return fmt.Errorf("id bitmap: %w", err)
			}
			ids := all.IDSet()
			if c.NoBitmap {
				ids = nil
			}
			return SameBitmap(ids, bm)
		},
	})
}

// IndexCase is a file and block indices to ask for.
type IndexCase struct {
	File    FileSpec `json:"file"`
	Indices []uint64 `json:"indices"`
	Cache   bool     `json:"cache"`
}

func TestC24(t *testing.T) {
	Run(t, Prop[IndexCase]{
		ID:   "C24",
		Rule: "a case is one file and block indices outside it (near the count, at 32- and 63-bit borders, arbitrary); non-trivial = at least 1 block and a bad index",
		Fixed: func() []IndexCase {
			var out []IndexCase
			for _, f := range fixedFiles() {
				if f.N() < 3000 {
					out = append(out, IndexCase{File: f, Indices: []uint64{1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1 << 33, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint32, 1 << 16, 1 << 8}})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) IndexCase {
			return IndexCase{File: genBlocksFile(t), Cache: rapid.Bool().Draw(t, "cache"),
				Indices: rapid.SliceOfN(rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 50), rapid.Map(rapid.IntRange(0, 63), func(i int) uint64 { return 1 << i }), rapid.Map(rapid.Uint64Range(0, 50), func(i uint64) uint64 { return -i })), 1, 6).Draw(t, "indices")}
		},
		Exec: func(e *Env, c IndexCase) error {
			path := e.Path()
			decoy(path, c.File)
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			n := uint64(len(blocks))
			e.Class(fmt.Sprintf("enc %d", c.File.Enc))
			r, err := openReader(path)
			if err != nil {
				return err
			}
			closed := false
			defer func() {
				if !closed {
					r.Close()
				}
			}()
			if c.Cache {
				r.EnableGlobalIDBitmapCaching()
			}
			if r.BlockCount() != n {
				return fmt.Errorf("block count %d, want %d", r.BlockCount(), n)
			}
			if r.Version() != 1 {
				return fmt.Errorf("version %d", r.Version())
			}
			if r.EncodingType() != c.File.Enc {
				return fmt.Errorf("encoding %d, want %d", r.EncodingType(), c.File.Enc)
			}
			if d := c.File.Enc >= 1 && c.File.Enc <= 3; r.IsDeltaEncoded() != d {
				return fmt.Errorf("encoding %d: delta encoded = %v", c.File.Enc, r.IsDeltaEncoded())
			}
			if v := c.File.Enc >= 4 && c.File.Enc <= 7; r.IsVarIntEncoded() != v {
				return fmt.Errorf("encoding %d: variable-length encoded = %v", c.File.Enc, r.IsVarIntEncoded())
			}
			info := r.DebugInfo()
			for i, b := range blocks {
				a := Agg(b)
				lo, hi := b.IDs[0], b.IDs[0]
				for _, id := range b.IDs {
					lo, hi = min(lo, id), max(hi, id)
				}
				for _, want := range []string{fmt.Sprintf("Block %d: ", i), fmt.Sprintf("Count=%d\n", b.Len()), fmt.Sprintf("ID range: %d-%d\n", lo, hi), fmt.Sprintf("Value range: %d-%d, Sum=%d\n", a.Min, a.Max, a.Sum)} {
					k := strings.Index(info, want)
					if k < 0 {
						return fmt.Errorf("debug information lacks %q of block %d:\n%.600s", want, i, info)
					}
					info = info[k+len(want)-1:]
				}
			}
			other, err := openReader(path)
			if err != nil {
				return err
			}
			defer other.Close()
			idx := append([]uint64{n, n + 1, n + 1<<32, n - 1 + 1<<32, 1<<63 + n - 1}, c.Indices...)
			for _, i := range idx {
				if i < n {
					continue
				}
				e.NonTrivial(n > 0)
				ids, vals, err := r.GetPairs(i)
				if err == nil {
					return fmt.Errorf("block index %d of %d returned %d ids, %d values and no error", i, n, len(ids), len(vals))
				}
				if len(ids) != 0 || len(vals) != 0 {
					return fmt.Errorf("block index %d of %d returned data with its error", i, n)
				}
			}
			// the errors left the reader usable
			got, err := ReadBlocks(r)
			if err != nil {
				return err
			}
			if err := SameBlocks(blocks, got); err != nil {
				return err
			}
			if err := r.Close(); err != nil {
				return fmt.Errorf("close: %w", err)
			}
			closed = true
			for i := uint64(0); i < n && i < 3; i++ {
				if _, _, err := r.GetPairs(i); err == nil {
					return fmt.Errorf("block %d read from a closed file", i)
				}
			}
			if _, err := r.GetGlobalIDBitmap(); err == nil {
				return fmt.Errorf("id bitmap read from a closed file")
			}
			// another reader of the same file is not affected
			if got, err = ReadBlocks(other); err != nil {
				return fmt.Errorf("after another reader was closed: %w", err)
			}
			return SameBlocks(blocks, got)
		},
	})
}

// ReadOp is one read operation.
type ReadOp struct {
	Kind  string `json:"kind"` // pairs, agg, prune, bitmap, info
	Block int    `json:"block,omitempty"`
	Skip  bool   `json:"skip,omitempty"`
	Par   int    `json:"par,omitempty"`
	Allow Filter `json:"allow"`
	Deny  Filter `json:"deny"`
	// Reuse passes bitmaps that earlier operations used too, refilled.
	Reuse bool `json:"reuse,omitempty"`
	// Own passes the reader's own id bitmap: as "allow" or "deny" filter.
	Own string `json:"own,omitempty"`
}

// ReadCase is a file and read operations on it.
type ReadCase struct {
	File FileSpec `json:"file"`
	Ops  []ReadOp `json:"ops"`
	On   bool     `json:"on,omitempty"` // bitmap caching
}

func genReadOps(t *rapid.T, ids []uint64, lo, hi int) []ReadOp {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ReadOp {
		o := ReadOp{Kind: rapid.SampledFrom([]string{"pairs", "pairs", "agg", "agg", "prune", "bitmap", "bitmap"}).Draw(t, "kind"), Allow: Filter{Nil: true}, Deny: Filter{Nil: true}}
		switch o.Kind {
		case "pairs":
			o.Block = rapid.IntRange(0, 12).Draw(t, "block")
		case "agg":
			o.Skip = rapid.Bool().Draw(t, "skip")
			o.Par = rapid.SampledFrom([]int{0, 0, -1, 2, 3, 9}).Draw(t, "par")
			fallthrough
		case "prune":
			o.Allow, o.Deny = GenFilter(t, ids, "allow"), GenFilter(t, ids, "deny")
		}
		return o
	}), lo, hi).Draw(t, "ops")
}

// addSiblings adds operations that differ from others only in one id inside
// a filter, passes some bitmaps again and some that come from the reader.
func addSiblings(t *rapid.T, ops []ReadOp, ids []uint64) []ReadOp {
	for i := rapid.IntRange(0, 2).Draw(t, "siblings"); i > 0; i-- {
		o := ops[rapid.IntRange(0, len(ops)-1).Draw(t, "of")]
		if o.Kind != "agg" && o.Kind != "prune" {
			continue
		}
		pick := rapid.IntRange(0, 1000).Draw(t, "pick")
		if o.Deny.Nil || (!o.Allow.Nil && pick%3 > 0) {
			o.Allow = o.Allow.Sibling(ids, pick)
		} else {
			o.Deny = o.Deny.Sibling(ids, pick)
		}
		ops = slices.Insert(ops, rapid.IntRange(0, len(ops)).Draw(t, "to"), o)
	}
	for i := range ops {
		if k := ops[i].Kind; k != "agg" && k != "prune" {
			continue
		}
		switch rapid.IntRange(0, 11).Draw(t, "bitmaps") {
		case 8, 9, 10:
			ops[i].Reuse = true
		case 11:
			ops[i].Own = rapid.SampledFrom([]string{"allow", "deny"}).Draw(t, "own")
		}
	}
	return ops
}

// filters are the bitmaps of earlier operations.
type filters struct{ allow, deny *sroar.Bitmap }

// refill makes an existing bitmap the given one.
func refill(b **sroar.Bitmap, f Filter) *sroar.Bitmap {
	if f.Nil {
		return nil
	}
	if *b == nil {
		*b = f.Bitmap()
		return *b
	}
	set := f.Set()
	for _, id := range (*b).ToArray() {
		if !set[id] {
			(*b).Remove(id)
		}
	}
	for id := range set {
		(*b).Set(id)
	}
	return *b
}

// bitmaps are the filters of the operation.
func (o ReadOp) bitmaps(r *col.Reader, fs *filters) (allow, deny *sroar.Bitmap, err error) {
	if o.Reuse {
		return refill(&fs.allow, o.Allow), refill(&fs.deny, o.Deny), nil
	}
	allow, deny = o.Allow.Bitmap(), o.Deny.Bitmap()
	switch o.Own {
	case "allow":
		allow, err = r.GetGlobalIDBitmap()
	case "deny":
		deny, err = r.GetGlobalIDBitmap()
	}
	return
}

// expected is the model answer of an operation.
type expected struct {
	pairs  Pairs
	bad    bool
	agg    col.AggregateResult
	bitmap map[uint64]bool
}

func model(op ReadOp, blocks []Pairs) expected {
	var x expected
	switch op.Kind {
	case "pairs":
		if op.Block >= len(blocks) {
			x.bad = true
		} else {
			x.pairs = blocks[op.Block]
		}
	case "agg":
		all := Flatten(blocks)
		allow, deny := op.Allow.Set(), op.Deny.Set()
		switch op.Own {
		case "allow":
			allow = nil // no pair is left out
		case "deny":
			deny = all.IDSet()
		}
		x.agg = Agg(all.Select(allow, deny))
	case "bitmap":
		x.bitmap = Flatten(blocks).IDSet()
	}
	return x
}

// held is the result of a read, still in the caller's hands.
type held struct {
	check func() error // compares it with the expected answer
	spoil func()       // changes what the caller may change
}

// perform makes the read and compares its result.
func perform(r *col.Reader, op ReadOp, x expected, prune []uint64, fs *filters) (held, error) {
	h := held{func() error { return nil }, func() {}}
	var allow, deny *sroar.Bitmap
	spoil := func(ids ...uint64) {
		for _, b := range []*sroar.Bitmap{allow, deny} {
			if b != nil && op.Own == "" { // the bitmaps are the caller's
				for _, id := range ids {
					b.Set(id)
				}
			}
		}
	}
	if op.Kind == "agg" || op.Kind == "prune" {
		var err error
		if allow, deny, err = op.bitmaps(r, fs); err != nil {
			return h, fmt.Errorf("id bitmap: %w", err)
		}
	}
	switch op.Kind {
	case "pairs":
		ids, vals, err := r.GetPairs(uint64(op.Block))
		if x.bad {
			if err == nil {
				return h, fmt.Errorf("block %d: no error", op.Block)
			}
			return h, nil
		}
		if err != nil {
			return h, fmt.Errorf("block %d: %w", op.Block, err)
		}
		h.check = func() error {
			if err := SamePairs(x.pairs, Pairs{IDs: ids, Vals: vals}); err != nil {
				return fmt.Errorf("block %d: %w", op.Block, err)
			}
			return nil
		}
		h.spoil = func() {
			for i := range ids {
				ids[i], vals[i] = ^ids[i], ^vals[i]
			}
			_ = append(ids[:0], 77, 78, 79)
		}
	case "agg":
		got := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: op.Skip, Parallel: op.Par, Filter: allow, DenyFilter: deny})
		h.check = func() error { return SameAgg(x.agg, got) }
		h.spoil = func() { spoil(3, 1<<40) }
	case "prune":
		got := r.FilteredBlockIterator(allow, deny)
		h.check = func() error {
			if !sameArray(prune, got) {
				return fmt.Errorf("candidate blocks %v, before %v", got, prune)
			}
			return nil
		}
		h.spoil = func() {
			for i := range got {
				got[i] = 99
			}
			spoil(0, math.MaxUint64)
		}
	case "on":
		r.EnableGlobalIDBitmapCaching()
	case "off":
		r.DisableGlobalIDBitmapCaching()
	case "bitmap":
		b, err := r.GetGlobalIDBitmap()
		if err != nil {
			return h, fmt.Errorf("id bitmap: %w", err)
		}
		h.check = func() error { return SameBitmap(x.bitmap, b) }
		h.spoil = func() {
			// in place first: adding ids may move the bitmap to memory of its own
			for id := range x.bitmap {
				if id%2 == 0 || len(x.bitmap) < 4 {
					b.Remove(id)
				}
			}
			b.Set(12345678901)
		}
	}
	return h, h.check()
}

func TestC25(t *testing.T) {
	Run(t, Prop[ReadCase]{
		ID:   "C25",
		Rule: "a case is one file and a sequence of read operations played four times, forward and backward, scrambling every returned slice and uncached bitmap in between or keeping them all and scrambling every second; non-trivial = at least 2 pairs and 2 operations",
		Gen: func(t *rapid.T) ReadCase {
			f := genBlocksFile(t)
			c := ReadCase{File: f, Ops: genReadOps(t, SpecIDs(f), 1, 8), On: rapid.IntRange(0, 3).Draw(t, "caching") == 3}
			c.Ops = addSiblings(t, c.Ops, SpecIDs(f))
			if rapid.IntRange(0, 2).Draw(t, "switch") == 0 {
				for i := rapid.IntRange(1, 4).Draw(t, "switches"); i > 0; i-- {
					at := rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
					kind := rapid.SampledFrom([]string{"on", "off", "bitmap"}).Draw(t, "switch")
					c.Ops = slices.Insert(c.Ops, at, ReadOp{Kind: kind, Allow: Filter{Nil: true}, Deny: Filter{Nil: true}})
				}
			}
			return c
		},
		Exec: func(e *Env, c ReadCase) error {
			path := e.Path()
			decoy(path, c.File)
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			caching, fs := c.On, &filters{}
			before := MustRead(path)
			e.NonTrivial(c.File.N() >= 2 && len(c.Ops) >= 2)
			e.ClassIf(len(blocks) > 1, ">1 block")
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			if c.On {
				r.EnableGlobalIDBitmapCaching()
				e.Class("caching")
			}
			var want []expected
			var prunes [][]uint64
			for _, op := range c.Ops {
				e.Class("op " + op.Kind)
				want = append(want, model(op, blocks))
				var p []uint64
				if op.Kind == "prune" {
					op.Reuse = false
					allow, deny, err := op.bitmaps(r, nil)
					if err != nil {
						return fmt.Errorf("id bitmap: %w", err)
					}
					p = append(p, r.FilteredBlockIterator(allow, deny)...)
				}
				e.ClassIf(op.Reuse, "bitmaps passed again")
				e.ClassIf(op.Own != "", "own bitmap passed")
				prunes = append(prunes, p)
			}
			for round := 0; round < 4; round++ {
				var hs []held
				for k := range c.Ops {
					i := k
					if round == 1 {
						i = len(c.Ops) - 1 - k
					}
					h, err := perform(r, c.Ops[i], want[i], prunes[i], fs)
					if err != nil {
						return fmt.Errorf("round %d, op %d (%s): %w", round, i, c.Ops[i].Kind, err)
					}
					switch kind := c.Ops[i].Kind; {
					case kind == "on" || kind == "off":
						caching = kind == "on"
					case kind == "bitmap" && caching:
						h.spoil = func() {} // shared with the reader
					}
					if round < 2 {
						h.spoil()
						continue
					}
					hs = append(hs, h)
				}
				// results kept while the others were read, and while every
				// second of them is changed
				for i, h := range hs {
					if i%2 == round%2 {
						if err := h.check(); err != nil {
							return fmt.Errorf("round %d, op %d (%s), after later reads: %w", round, i, c.Ops[i].Kind, err)
						}
						h.spoil()
					}
				}
				for i, h := range hs {
					if i%2 != round%2 {
						if err := h.check(); err != nil {
							return fmt.Errorf("round %d, op %d (%s), after other results were changed: %w", round, i, c.Ops[i].Kind, err)
						}
					}
				}
			}
			info := r.DebugInfo()
			if info != r.DebugInfo() {
				return fmt.Errorf("debug info changes between calls")
			}
			if !bytes.Equal(before, MustRead(path)) {
				return fmt.Errorf("file changed by reading")
			}
			return nil
		},
	})
}

var _ = sort.Ints
