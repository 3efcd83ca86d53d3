package props

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"sync"
	"testing"

	. "vibeverif/core"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// ConcCase is a file read by several goroutines at once.
type ConcCase struct {
	File    FileSpec   `json:"file"`
	Threads [][]ReadOp `json:"threads"`
	Rounds  int        `json:"rounds"`
	Cache   bool       `json:"cache"`
	Toggle  bool       `json:"toggle"` // one more goroutine switches caching
}

func TestC12(t *testing.T) {
	WatchRaces()
	nilF := Filter{Nil: true}
	Run(t, Prop[ConcCase]{
		ID:   "C12",
		Rule: "a case is one file and 2-6 goroutines, each with a list of reads (blocks, aggregations, pruning, id bitmap), released together, possibly while caching is switched; run in a race-detector build and a plain build; non-trivial = at least 2 goroutines with operations on a file with pairs",
		Fixed: func() []ConcCase {
			var out []ConcCase
			for enc := uint32(0); enc < 8; enc++ {
				f := FileSpec{Enc: enc, Target: 4096, Chunks: []Chunk{{{N: 700, ID: 5, Step: 3, V: -900, VStep: 7}}, {{N: 60, ID: 1 << 40, Step: 3, V: 5, VStep: -7}}, {{N: 1, ID: 2, V: 0}}}}
				ops := []ReadOp{{Kind: "pairs", Allow: nilF, Deny: nilF}, {Kind: "bitmap", Allow: nilF, Deny: nilF}, {Kind: "agg", Skip: true, Allow: nilF, Deny: nilF},
					{Kind: "agg", Par: 3, Allow: Filter{From: 20, Len: 900}, Deny: Filter{IDs: []uint64{23, 26}}}, {Kind: "prune", Allow: Filter{IDs: []uint64{8, 1 << 40}}, Deny: nilF}, {Kind: "agg", Par: -1, Skip: true, Allow: nilF, Deny: nilF}, {Kind: "pairs", Block: 2, Allow: nilF, Deny: nilF}}
				var th [][]ReadOp
				for i := range ops {
					th = append(th, append(append([]ReadOp(nil), ops[i:]...), ops[:i]...))
				}
				for m := 0; m < 4; m++ {
					out = append(out, ConcCase{File: f, Threads: th, Rounds: 4, Cache: m&1 == 1, Toggle: m&2 != 0})
				}
				for _, op := range ops {
					same := [][]ReadOp{{op}, {op}, {op}, {op}}
					out = append(out, ConcCase{File: f, Threads: same, Rounds: 10, Cache: true}, ConcCase{File: f, Threads: same, Rounds: 10})
				}
			}
			// an id bitmap of more than 64 KB
			scattered := FileSpec{Chunks: []Chunk{{{N: 900, ID: 5, Step: 65537, V: -900, VStep: 7}}}}
			bm := ReadOp{Kind: "bitmap", Allow: nilF, Deny: nilF}
			out = append(out, ConcCase{File: scattered, Threads: [][]ReadOp{{bm}, {bm}, {bm}, {{Kind: "pairs", Allow: nilF, Deny: nilF}}}, Rounds: 10})
			// sections of more than 64 KB, and of more than a megabyte
			for _, n := range []int{9000, 150000} {
				for _, enc := range []uint32{0, 3} {
					f := FileSpec{Enc: enc, Target: 1 << 24, Chunks: []Chunk{{{N: n, ID: 5, Step: 3, V: -900, VStep: 7}}, {{N: n, ID: 1 << 40, Step: 3, V: 5, VStep: -7}}, {{N: 1, ID: 2, V: 0}}}}
					th := [][]ReadOp{{{Kind: "pairs", Allow: nilF, Deny: nilF}}, {{Kind: "pairs", Block: 1, Allow: nilF, Deny: nilF}}, {{Kind: "agg", Skip: true, Allow: nilF, Deny: nilF}},
						{{Kind: "agg", Par: 2, Skip: true, Allow: nilF, Deny: nilF}}}
					out = append(out, ConcCase{File: f, Threads: th, Rounds: 3})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) ConcCase {
			c := ConcCase{File: genBlocksFile(t), Rounds: rapid.IntRange(1, 6).Draw(t, "rounds"), Cache: rapid.Bool().Draw(t, "cache"), Toggle: rapid.IntRange(0, 3).Draw(t, "toggle") == 3}
			ids := SpecIDs(c.File)
			n := rapid.IntRange(2, 6).Draw(t, "threads")
			for i := 0; i < n; i++ {
				c.Threads = append(c.Threads, genReadOps(t, ids, 1, 5))
			}
			return c
		},
		Exec: func(e *Env, c ConcCase) error {
			path := e.Path()
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			before := MustRead(path)
			// the sequential answers come from a reader of their own
			r0, err := openReader(path)
			if err != nil {
				return err
			}
			defer r0.Close()
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			if c.Cache {
				r.EnableGlobalIDBitmapCaching()
			}
			type task struct {
				op    ReadOp
				want  expected
				prune []uint64
			}
			tasks := make([][]task, len(c.Threads))
			busy := 0
			for i, ops := range c.Threads {
				if len(ops) > 0 {
					busy++
				}
				for _, op := range ops {
					e.Class("op " + op.Kind)
					k := task{op: op, want: model(op, blocks)}
					if op.Kind == "prune" {
						k.prune = r0.FilteredBlockIterator(op.Allow.Bitmap(), op.Deny.Bitmap())
					}
					if _, err := perform(r0, op, k.want, k.prune, nil); err != nil {
						return fmt.Errorf("sequentially: %s: %w", op.Kind, err)
					}
					tasks[i] = append(tasks[i], k)
				}
			}
			e.ClassIf(c.Cache, "cached bitmap")
			e.ClassIf(c.Toggle, "caching switched")
			e.NonTrivial(busy >= 2 && len(blocks) > 0)
			errs := make([]error, len(tasks))
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for i := range tasks {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							errs[i] = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
						}
					}()
					<-gate
					for n := 0; n < c.Rounds; n++ {
						for j, k := range tasks[i] {
							if _, err := perform(r, k.op, k.want, k.prune, nil); err != nil {
								errs[i] = fmt.Errorf("goroutine %d, round %d, op %d (%s): %w", i, n, j, k.op.Kind, err)
								return
							}
						}
					}
				}()
			}
			if c.Toggle {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					for n := 0; n < 4*c.Rounds; n++ {
						if n%2 == 0 {
							r.EnableGlobalIDBitmapCaching()
						} else {
							r.DisableGlobalIDBitmapCaching()
						}
					}
				}()
			}
			close(gate)
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			// nothing was left behind
			if err := CheckFileHolds(path, blocks); err != nil {
				return fmt.Errorf("afterwards: %w", err)
			}
			if err := SameAgg(Agg(Flatten(blocks)), r.AggregateWithOptions(col.AggregateOptions{})); err != nil {
				return fmt.Errorf("afterwards: %w", err)
			}
			if !bytes.Equal(before, MustRead(path)) {
				return fmt.Errorf("file changed by reading")
			}
			return nil
		},
	})
}

// TestC12Multi runs multi-file aggregations of several goroutines over shared
// readers, beside reads of the files themselves.
func TestC12Multi(t *testing.T) {
	WatchRaces()
	Run(t, Prop[MultiCase]{
		ID: "C12", Part: "multi", Weight: 0.5,
		Rule: "a case is a list of files and a history of multi-file aggregations, single-file queries and cache switches, played by four goroutines on the same readers, two with a common and two with an own multi-file reader; non-trivial = an aggregation over at least 2 files",
		Fixed: func() []MultiCase {
			var out []MultiCase
			for i, c := range fixedMulti() {
				if i%3 == 0 {
					out = append(out, c)
				}
			}
			return out
		},
		Gen: genMulti,
		Exec: func(e *Env, c MultiCase) error {
			readers, contents, err := openMulti(e, c)
			defer func() {
				for _, r := range readers {
					r.Close()
				}
			}()
			if err != nil {
				return err
			}
			common := multicol.NewMultiReader(readers)
			ops := append(append([]MultiOp(nil), c.Ops...), MultiOp{Kind: "agg", Allow: Filter{Nil: true}}, MultiOp{Kind: "agg", Skip: true, Allow: Filter{Nil: true}})
			want := make([]col.AggregateResult, len(ops))
			for i, op := range ops {
				if op.Kind == "agg" {
					want[i] = Agg(newestWins(contents, op.Allow.Set()))
				}
			}
			e.NonTrivial(len(readers) > 1)
			const threads = 4
			errs := make([]error, threads)
			gate := make(chan struct{})
			var wg sync.WaitGroup
			for k := 0; k < threads; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							errs[k] = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
						}
					}()
					mr := common
					if k%2 == 1 {
						mr = multicol.NewMultiReader(readers)
					}
					<-gate
					for n := 0; n < 3; n++ {
						for j := range ops {
							i := (j + k*len(ops)/threads) % len(ops)
							op := ops[i]
							switch {
							case op.Kind != "agg" && op.File >= len(readers):
							case op.Kind == "on":
								readers[op.File].EnableGlobalIDBitmapCaching()
							case op.Kind == "off":
								readers[op.File].DisableGlobalIDBitmapCaching()
							case op.Kind != "agg":
								if err := checkOwn(readers[op.File], contents[op.File]); err != nil {
									errs[k] = fmt.Errorf("goroutine %d, op %d: file %d: %w", k, i, op.File, err)
									return
								}
							default:
								got, err := mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: op.Skip, Filter: op.Allow.Bitmap()})
								if err == nil {
									err = SameAgg(want[i], got)
								}
								if err != nil {
									errs[k] = fmt.Errorf("goroutine %d, op %d: %w", k, i, err)
									return
								}
							}
						}
					}
				}()
			}
			close(gate)
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			for i, r := range readers {
				if err := checkOwn(r, contents[i]); err != nil {
					return fmt.Errorf("afterwards: file %d: %w", i, err)
				}
			}
			return nil
		},
	})
}
