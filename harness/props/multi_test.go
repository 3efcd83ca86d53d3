package props

import (
	"fmt"
	"os"
	"testing"

	. "vibeverif/core"

	"github.com/weaviate/sroar"
	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// MultiOp is one call in the history of a multi-file reader.
type MultiOp struct {
	Kind  string `json:"kind"` // agg, on, off, own, bitmap
	File  int    `json:"file,omitempty"`
	Skip  bool   `json:"skip,omitempty"`
	Allow Filter `json:"allow"`
}

// MultiCase is a list of files, oldest first, and a history.
type MultiCase struct {
	Files []FileSpec `json:"files"`
	Order []int      `json:"order"` // index into Files per reader; repeats open the file again
	Share bool       `json:"share"` // repeats share one reader instead
	Ops   []MultiOp  `json:"ops"`
}

// newestWins selects, per id, the pairs of the newest file holding it.
func newestWins(files [][]Pairs, allow map[uint64]bool) Pairs {
	seen := map[uint64]bool{}
	var out Pairs
	for i := len(files) - 1; i >= 0; i-- {
		all := Flatten(files[i])
		out.Append(all.Select(allow, seen))
		for _, id := range all.IDs {
			seen[id] = true
		}
	}
	return out
}

// genUpdates draws files over one small id universe, so that they overlap.
func genUpdates(t *rapid.T) []FileSpec {
	base := rapid.SampledFrom([]uint64{0, 0, 0, 65530, 1 << 32, 1<<63 - 4, ^uint64(0) - 12}).Draw(t, "base")
	width := rapid.SampledFrom([]uint64{3, 8, 13, 200}).Draw(t, "width")
	if base > 1<<63 {
		width = min(width, 12)
	}
	pair := rapid.Custom(func(t *rapid.T) Seg {
		s := Seg{N: 1, ID: base + rapid.Uint64Range(0, width).Draw(t, "off"), V: GenVal(t)}
		if rapid.IntRange(0, 4).Draw(t, "run") == 4 {
			s.N = rapid.IntRange(2, 9).Draw(t, "runn")
			s.Step = rapid.SampledFrom([]uint64{0, 1, 1, 2}).Draw(t, "runstep")
			s.VStep = rapid.Int64Range(-9, 9).Draw(t, "runv")
			if s.ID > ^uint64(0)-20 {
				s.Step = 0
			}
		}
		return s
	})
	if rapid.IntRange(0, 19).Draw(t, "wide") == 19 { // a few large files
		steps := rapid.SampledFrom([]uint64{1, 1, 3, 100, 65536, 1 << 32}).Draw(t, "step")
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FileSpec {
			s := Seg{N: rapid.IntRange(50, 2500).Draw(t, "widen"), V: GenVal(t), VStep: rapid.Int64Range(-9, 9).Draw(t, "widev")}
			s.Step = steps * rapid.Uint64Range(1, 3).Draw(t, "widestep")
			s.ID = 1<<20 + steps*rapid.Uint64Range(0, 3000).Draw(t, "wideoff")
			f := FileSpec{Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 4096, 1 << 20}).Draw(t, "widetarget"), Chunks: []Chunk{{s}}}
			f.Limit()
			return f
		}), 2, 4).Draw(t, "widefiles")
	}
	file := rapid.Custom(func(t *rapid.T) FileSpec {
		k := rapid.IntRange(0, 9).Draw(t, "fkind")
		if k == 0 {
			return FileSpec{Enc: GenEnc(t)}
		}
		if k == 1 {
			return GenSmallFile(t, 3)
		}
		f := FileSpec{Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 4096, 1}).Draw(t, "target")}
		f.Chunks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Chunk { return rapid.SliceOfN(pair, 1, 5).Draw(t, "chunk") }), 1, 3).Draw(t, "chunks")
		f.Limit()
		return f
	})
	return rapid.SliceOfN(file, 0, rapid.SampledFrom([]int{5, 5, 5, 5, 12}).Draw(t, "maxfiles")).Draw(t, "files")
}

func genMulti(t *rapid.T) MultiCase {
	c := MultiCase{Files: genUpdates(t), Share: rapid.Bool().Draw(t, "share")}
	n := len(c.Files)
	for i := range c.Files {
		c.Order = append(c.Order, i)
	}
	if n > 0 && rapid.IntRange(0, 3).Draw(t, "reorder") == 3 {
		c.Order = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 6).Draw(t, "order")
	}
	var ids []uint64
	for _, f := range c.Files {
		ids = append(ids, SpecIDs(f)...)
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) MultiOp {
		o := MultiOp{Kind: rapid.SampledFrom([]string{"agg", "agg", "agg", "on", "on", "off", "own", "bitmap"}).Draw(t, "kind"), Allow: Filter{Nil: true}}
		if n > 0 {
			o.File = rapid.IntRange(0, len(c.Order)-1).Draw(t, "file")
		}
		if o.Kind == "agg" {
			o.Skip = rapid.Bool().Draw(t, "skip")
			o.Allow = GenFilter(t, ids, "allow")
		}
		return o
	}), 1, 8).Draw(t, "ops")
	return c
}

func fixedMulti() []MultiCase {
	nilF := Filter{Nil: true}
	seg := func(id uint64, n int, v int64) FileSpec {
		return FileSpec{Enc: uint32(v&7) % 8, Chunks: []Chunk{{{N: n, ID: id, Step: 1, V: v * 100, VStep: 1}}}}
	}
	sets := [][]FileSpec{
		{},
		{seg(1, 4, 1)},
		{{}, seg(1, 4, 1), {}},
		{seg(1, 9, -3), seg(4, 3, 2), seg(5, 1, 7)},
		{seg(4, 3, 2), seg(1, 9, -3), seg(20, 2, 5)},
		{seg(1, 4, -1), seg(1, 4, -2), seg(1, 4, -3), seg(1, 4, -4)},
		{seg(0, 1, 5), seg(^uint64(0)-1, 2, -5), seg(^uint64(0), 1, 6), seg(65535, 2, 1), seg(65536, 1, -1)},
		{seg(1, 5000, 1), seg(2000, 10, -9), seg(4990, 5000, 3)},
	}
	// more files than any of the usual word sizes: each updates the id of the
	// one before and adds its own, and a few are empty
	for _, n := range []int{33, 65, 130, 257} {
		var fs []FileSpec
		for i := 0; i < n; i++ {
			f := FileSpec{Enc: uint32(i % 8)}
			if i%16 != 5 {
				f.Chunks = []Chunk{{{N: 2, ID: uint64(3*i - i%3), Step: 2, V: int64(i * i), VStep: -7}}, {{N: 1, ID: uint64(n + i%40), V: int64(-i)}}}
			}
			fs = append(fs, f)
		}
		sets = append(sets, fs)
	}
	// large files: many containers, full containers, many blocks
	wide := func(n int, id, step uint64, v int64) FileSpec {
		return FileSpec{Enc: uint32(v&7) % 8, Target: 1 << 22, Chunks: []Chunk{{{N: n, ID: id, Step: step, V: v, VStep: 3}}}}
	}
	blocks := func(n int, id, step uint64, v int64) FileSpec {
		return FileSpec{Enc: uint32(v&7) % 8, Target: 1, Split: 1, Chunks: []Chunk{{{N: n, ID: id, Step: step, V: v, VStep: -5}}}}
	}
	sets = append(sets,
		[]FileSpec{wide(9000, 3, 65536, 1), wide(9000, 3+4000*65536, 65536, -2), wide(3000, 4, 3*65536, 7)},
		[]FileSpec{wide(70000, 1<<33, 1, 1), wide(35000, 1<<33-9, 2, 5), wide(66000, 1<<33+30000, 3, -4)},
		[]FileSpec{wide(2000, 1<<40, 1<<32, 1), wide(2000, 1<<40, 1<<33, 6), wide(400, 1<<40, 1<<35, 3), wide(9000, 0, 1<<30, 2)},
		[]FileSpec{blocks(300, 10, 3, 1), blocks(300, 11, 2, 7), blocks(70, 400, 7, 2), {}, blocks(130, 64, 5, -6)},
	)

	var out []MultiCase
	for _, fs := range sets {
		c := MultiCase{Files: fs}
		for i := range fs {
			c.Order = append(c.Order, i)
		}
		var on, off []MultiOp
		for i := range fs {
			on = append(on, MultiOp{Kind: "on", File: i, Allow: nilF})
			off = append(off, MultiOp{Kind: "off", File: i, Allow: nilF})
		}
		for _, al := range []Filter{nilF, {}, {IDs: []uint64{1, 5, 65536}}, {From: 0, Len: 100}, {IDs: []uint64{^uint64(0)}}} {
			var aggs []MultiOp
			for _, skip := range []bool{false, true} {
				aggs = append(aggs, MultiOp{Kind: "agg", Skip: skip, Allow: al}, MultiOp{Kind: "agg", Skip: skip, Allow: al})
			}
			if len(fs) > 0 {
				aggs = append(aggs, MultiOp{Kind: "own", File: 0, Allow: nilF}, MultiOp{Kind: "bitmap", File: len(fs) - 1, Allow: nilF})
			}
			d := c
			d.Ops = append(append(append(append(append([]MultiOp(nil), aggs...), on...), aggs...), off...), aggs...)
			out = append(out, d)
			if len(fs) > 1 {
				d.Order = append(append([]int(nil), c.Order...), c.Order[0])
				d.Share = al.Nil
				out = append(out, d)
			}
		}
	}
	return out
}

// openMulti writes the files and opens one reader per entry of Order.
func openMulti(e *Env, c MultiCase) (readers []*col.Reader, contents [][]Pairs, err error) {
	paths := make([]string, len(c.Files))
	blocks := make([][]Pairs, len(c.Files))
	for i, f := range c.Files {
		paths[i] = e.Path()
		if blocks[i], err = f.Write(paths[i]); err != nil {
			return
		}
	}
	shared := map[int]*col.Reader{}
	for _, k := range c.Order {
		r := shared[k]
		if r == nil || !c.Share {
			if r, err = openReader(paths[k]); err != nil {
				return
			}
			shared[k] = r
		}
		readers = append(readers, r)
		contents = append(contents, blocks[k])
	}
	return
}

func TestC11(t *testing.T) {
	Run(t, Prop[MultiCase]{
		ID:    "C11",
		Rule:  "a case is a list of files over a shared id range (some empty, some opened twice) and a history of multi-file aggregations, cache switches and single-file queries; non-trivial = an id stored in two files with the newest-wins result differing from the plain total, and at least one aggregation",
		Fixed: fixedMulti,
		Gen:   genMulti,
		Exec: func(e *Env, c MultiCase) error {
			readers, contents, err := openMulti(e, c)
			defer func() {
				for _, r := range readers {
					r.Close()
				}
			}()
			if err != nil {
				return err
			}
			mr := multicol.NewMultiReader(readers)
			var total Pairs
			for _, b := range contents {
				total.Append(Flatten(b))
			}
			plain := newestWins(contents, nil)
			aggs := 0
			ops := append(append([]MultiOp(nil), c.Ops...), MultiOp{Kind: "agg", Allow: Filter{Nil: true}})
			for i, op := range ops {
				switch op.Kind {
				case "on":
					if op.File < len(readers) {
						readers[op.File].EnableGlobalIDBitmapCaching()
						e.Class("caching on")
					}
				case "off":
					if op.File < len(readers) {
						readers[op.File].DisableGlobalIDBitmapCaching()
					}
				case "own", "bitmap":
					if op.File >= len(readers) {
						continue
					}
					if err := checkOwn(readers[op.File], contents[op.File]); err != nil {
						return fmt.Errorf("op %d: file %d: %w", i, op.File, err)
					}
				default:
					aggs++
					want := Agg(newestWins(contents, op.Allow.Set()))
					e.Class("allow " + kindOf(op.Allow))
					allow := op.Allow.Bitmap()
					before := bitmapArray(allow)
					got, err := mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: op.Skip, Filter: allow})
					if err != nil {
						return fmt.Errorf("op %d: aggregate: %w", i, err)
					}
					if err := SameAgg(want, got); err != nil {
						return fmt.Errorf("op %d: %w", i, err)
					}
					if !sameArray(before, bitmapArray(allow)) {
						return fmt.Errorf("op %d: the allow bitmap was modified", i)
					}
				}
			}
			for k, r := range readers {
				if err := checkOwn(r, contents[k]); err != nil {
					return fmt.Errorf("afterwards: file %d: %w", k, err)
				}
			}
			e.Class(fmt.Sprintf("%d readers", len(readers)))
			e.NonTrivial(plain.Len() != total.Len() && aggs > 0)
			return nil
		},
	})
}

// checkOwn compares a reader's own answers with the contents of its file.
func checkOwn(r *col.Reader, blocks []Pairs) error {
	b, err := r.GetGlobalIDBitmap()
	if err != nil {
		return fmt.Errorf("id bitmap: %w", err)
	}
	all := Flatten(blocks)
	if err := SameBitmap(all.IDSet(), b); err != nil {
		return err
	}
	for _, skip := range []bool{false, true} {
		if err := SameAgg(Agg(all), r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: skip})); err != nil {
			return fmt.Errorf("own aggregate: %w", err)
		}
	}
	return nil
}

func TestC24Multi(t *testing.T) {
	Run(t, Prop[MultiCase]{
		ID: "C24", Part: "multi",
		Rule: "a case is a list of files, some of them closed beforehand; non-trivial = at least 2 readers",
		Fixed: func() []MultiCase { // every set of 1 to 4 files closed beforehand
			var out []MultiCase
			for n := 1; n <= 4; n++ {
				for set := 0; set < 1<<n; set++ {
					var c MultiCase
					for i := 0; i < n; i++ {
						c.Files = append(c.Files, FileSpec{Chunks: []Chunk{{{N: 2, ID: uint64(i), Step: 1, V: int64(set)}}}})
						c.Order = append(c.Order, i)
						if set>>i&1 == 1 {
							c.Ops = append(c.Ops, MultiOp{Kind: "off", File: i, Allow: Filter{Nil: true}})
						}
					}
					out = append(out, c)
				}
			}
			return out
		},
		Gen: func(t *rapid.T) MultiCase {
			c := genMulti(t)
			c.Share = false
			return c
		},
		Exec: func(e *Env, c MultiCase) error {
			fds := openFiles(e.Dir)
			readers, contents, err := openMulti(e, c)
			if err != nil {
				return err
			}
			mr := multicol.NewMultiReader(readers)
			already := 0
			for _, op := range c.Ops {
				if op.Kind == "off" && op.File < len(readers) {
					if readers[op.File].Close() == nil {
						already++
					}
				}
			}
			e.ClassIf(already > 0, "some closed before")
			e.NonTrivial(len(readers) > 1)
			err = mr.Close()
			if already == 0 && err != nil {
				return fmt.Errorf("close: %w", err)
			}
			if n := openFiles(e.Dir); n != fds {
				return fmt.Errorf("%d files open after closing the multi-file reader, %d before opening", n, fds)
			}
			for i, r := range readers {
				if again := r.Close(); again != nil && already > 0 && err == nil {
					return fmt.Errorf("closing file %d twice is an error (%v), but not for the multi-file reader", i, again)
				}
			}
			for i, r := range readers {
				if len(contents[i]) > 0 {
					if _, _, err := r.GetPairs(0); err == nil {
						return fmt.Errorf("file %d still readable after close", i)
					}
				}
			}
			return nil
		},
	})
}

// openFiles counts this process's open descriptors of files below dir.
func openFiles(dir string) int {
	ents, err := os.ReadDir("/proc/self/fd")
	Must(err)
	n := 0
	for _, en := range ents {
		t, err := os.Readlink("/proc/self/fd/" + en.Name())
		if err == nil && len(t) > len(dir) && t[:len(dir)] == dir {
			n++
		}
	}
	return n
}

var _ = sroar.NewBitmap
