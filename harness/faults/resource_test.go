package faults

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"
	"time"

	. "vibeverif/core"
	"vibeverif/vos"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// held counts what this process holds: open files below dir (vos keeps every
// file reachable until Reset, so none is closed by the garbage collector) and
// goroutines.
type held struct {
	dir        string
	goroutines int
}

func hold(dir string) held { return held{dir, runtime.NumGoroutine()} }

// ownDir moves the case to a directory of its own, so that files an earlier,
// failing case has left open are not counted.
func ownDir(e *Env) {
	d, err := os.MkdirTemp(e.Dir, "case")
	Must(err)
	e.Dir = d
}

func (h held) files() int {
	ents, err := os.ReadDir("/proc/self/fd")
	Must(err)
	n := 0
	for _, en := range ents {
		t, err := os.Readlink("/proc/self/fd/" + en.Name())
		if err == nil && strings.HasPrefix(t, h.dir+"/") {
			n++
		}
	}
	return n
}

// check wants n open files and no goroutine more than at the start. A worker
// that has delivered its result may need a moment to end.
func (h held) check(n int, what string) error {
	if got := h.files(); got != n {
		return fmt.Errorf("%d files open after %s, want %d", got, what, n)
	}
	start := time.Now()
	for i := 0; runtime.NumGoroutine() > h.goroutines; i++ {
		if i > 300 && time.Since(start) > 5*time.Second {
			return fmt.Errorf("%d goroutines after %s, %d before", runtime.NumGoroutine(), what, h.goroutines)
		}
		time.Sleep(min(time.Duration(i)*50*time.Microsecond, 20*time.Millisecond))
	}
	return nil
}

// ReleaseCase is a writer history, with calls it must refuse, and faults.
type ReleaseCase struct {
	Hist    History  `json:"hist"`
	Odd     []int    `json:"odd,omitempty"`     // before these chunks: a call with differing counts
	Abandon bool     `json:"abandon,omitempty"` // close without finalizing
	Faults  []WFault `json:"faults,omitempty"`
	Stride  int      `json:"stride"`
}

// releaseRun makes the history and looks at what is held after each step.
func releaseRun(c ReleaseCase, path string, h held, onlyStop bool) (left int, err error) {
	var sw *col.SimpleWriter
	var bw *col.Writer
	if c.Hist.Simple {
		sw, err = col.NewSimpleWriter(path, c.Hist.options()...)
	} else {
		bw, err = col.NewWriter(path, c.Hist.options()...)
	}
	if err != nil {
		return 0, h.check(0, fmt.Sprintf("the file could not be created (%v)", err))
	}
	passed := 0
	for i, ch := range c.Hist.Chunks {
		p := ch.Expand()
		for _, o := range c.Odd {
			if o == i && p.Len() > 0 {
				if sw != nil {
					sw.Write(p.IDs, p.Vals[:p.Len()-1])
				} else {
					bw.WriteBlock(p.IDs, p.Vals[:p.Len()-1])
				}
			}
		}
		if p.Len() == 0 {
			continue
		}
		if sw != nil {
			if err = sw.Write(p.IDs, p.Vals); err == nil {
				passed += p.Len()
				if n := uint64(passed) - sw.TotalItems(); n >= 1000 {
					sw.Close()
					return 0, fmt.Errorf("after batch %d the writer holds %d of %d pairs back", i, n, passed)
				} else if int(n) > left {
					left = int(n)
				}
			}
		} else {
			_, err = WriteAll(bw, p)
		}
		if err != nil && onlyStop {
			break
		}
	}
	if sw != nil {
		err = sw.Close()
		if bad := h.check(0, fmt.Sprintf("the simple writer's close (%v)", err)); bad != nil {
			return left, bad
		}
		sw.Close()
		return left, h.check(0, "a repeated close of the simple writer")
	}
	if !c.Abandon {
		if err = bw.FinalizeAndClose(); err == nil {
			return 0, h.check(0, "finalizing and closing")
		}
	}
	bw.Close()
	return 0, h.check(0, fmt.Sprintf("close (finalization: %v)", err))
}

// genBigBatches draws batches around and beyond what a block takes, for blocks
// of one to three thousand pairs.
func genBigBatches(t *rapid.T) History {
	h := History{Simple: true, Enc: uint32(rapid.IntRange(0, 7).Draw(t, "enc")), Target: uint32(rapid.IntRange(2, 12).Draw(t, "pages")) * 4096}
	per := int(h.Target) / 16
	for i := rapid.IntRange(1, 3).Draw(t, "batches"); i > 0; i-- {
		n := rapid.SampledFrom([]int{per, per + 999, per + 1001, per * 3 / 2, per * 7 / 4, 500, 1000, 2000}).Draw(t, "n") + rapid.IntRange(-20, 20).Draw(t, "more")
		h.Chunks = append(h.Chunks, Chunk{{N: n, ID: rapid.Uint64Range(0, 1<<34).Draw(t, "id"), Step: rapid.Uint64Range(0, 1<<40).Draw(t, "step"), V: 5, VStep: rapid.Int64Range(0, 1<<40).Draw(t, "vstep")}})
	}
	return h
}

func TestC28(t *testing.T) {
	Run(t, Prop[ReleaseCase]{
		ID: "C28", Part: "writers",
		Rule: "a case is a writer history with refused calls and a list of fault kinds, each tried at every file operation (every Stride-th when there are many), with open files and goroutines counted after creation, close and finalization and the pairs held back counted after every batch; non-trivial = a refused close, 10 faulty runs, or pairs held back",
		Fixed: func() []ReleaseCase {
			var out []ReleaseCase
			for i, h := range append(smallHistories(), History{Simple: true, Enc: 8, Chunks: []Chunk{{{N: 2, ID: 1, Step: 1}}}}, History{Simple: true, Enc: 77, Chunks: []Chunk{{{N: 2000, ID: 1, Step: 1}}}}) {
				out = append(out, ReleaseCase{Hist: h, Abandon: i%4 == 1, Odd: []int{i % 3}, Faults: []WFault{{Policy: "stop"}, {Policy: "skip", Short: 1}, {Policy: "stop", Lasting: "all"}}, Stride: 1})
			}
			for _, n := range [][]int{{999, 1, 999, 1}, {1000}, {1001, 998, 2}, {5000, 1}, {1, 2, 3, 994, 999, 1000, 1001}} {
				for _, target := range []uint32{0, 1, 4096, 8192, 20000} {
					h := History{Simple: true, Enc: uint32(len(n)), Target: target}
					for j, k := range n {
						h.Chunks = append(h.Chunks, Chunk{{N: k, ID: uint64(j), Step: 3, V: 1, VStep: 1}})
					}
					out = append(out, ReleaseCase{Hist: h, Stride: 1})
				}
			}
			// blocks of thousands of pairs, and rests of any part of a block
			for _, b := range []struct {
				enc, target uint32
				n           int // pairs in a block, about
			}{{0, 32768, 2040}, {0, 65536, 4090}, {3, 49152, 3060}, {7, 8192, 4050}, {0, 131072, 8180}} {
				for _, tenths := range []int{4, 9, 14, 17} {
					h := History{Simple: true, Enc: b.enc, Target: b.target}
					if b.n > 5000 && tenths != 14 {
						continue
					}
					for j := 0; j < 2; j++ {
						h.Chunks = append(h.Chunks, Chunk{{N: b.n*tenths/10 + 998*j, ID: uint64(j), Step: 1, V: 1, VStep: 1}})
					}
					out = append(out, ReleaseCase{Hist: h, Stride: 1})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) ReleaseCase {
			c := ReleaseCase{Hist: genHistory(t, 40), Stride: rapid.IntRange(1, 4).Draw(t, "stride"), Abandon: rapid.IntRange(0, 4).Draw(t, "abandon") == 0}
			k := rapid.IntRange(0, 9).Draw(t, "kind")
			if k >= 7 {
				c.Hist = genFlushHistory(t)
				c.Stride = rapid.IntRange(60, 250).Draw(t, "stride")
			}
			if k == 9 {
				c.Hist = genBigBatches(t)
			}
			if k == 0 {
				c.Hist.Enc = rapid.SampledFrom([]uint32{8, 9, 255, 1 << 31}).Draw(t, "unsupported")
			}
			if k == 1 {
				c.Odd = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 2).Draw(t, "odd")
			}
			if k != 9 {
				c.Faults = rapid.SliceOfN(rapid.Custom(genWFault), 0, 2).Draw(t, "faults")
			}
			return c
		},
		Exec: func(e *Env, c ReleaseCase) error {
			ownDir(e)
			path := e.Path()
			defer none()
			vos.Reset(nil, nil)
			h := hold(e.Dir)
			left, err := releaseRun(c, path, h, false)
			if err != nil {
				return fmt.Errorf("without faults: %w", err)
			}
			n := vos.Count()
			runs := 0
			for _, f := range c.Faults {
				for k := 0; k < n+1; k++ {
					if c.Stride > 1 && k%c.Stride != 0 && k > 12 && k < n-30 {
						continue
					}
					runs++
					e.Progress()
					removeIf(path)
					vos.Reset(func(ev vos.Event) vos.Fault {
						hit := ev.Seq == k || f.Lasting == "all" && ev.Seq >= k || f.Lasting == "write" && ev.Seq > k && ev.Op == "write" || f.Lasting == "pair" && ev.Seq == k+f.Gap
						if !hit {
							return vos.Fault{}
						}
						return vos.Fault{Err: vos.ErrInjected, Short: shortOf(f.Short, len(ev.Data))}
					}, nil)
					if _, err := releaseRun(c, path, h, f.Policy == "stop"); err != nil {
						return fmt.Errorf("fault %+v at operation %d of %d: %w", f, k, n, err)
					}
				}
			}
			unsupported := c.Hist.Enc > 7 && c.Hist.n() > 0
			e.ClassIf(unsupported, "unsupported encoding")
			e.ClassIf(c.Hist.Simple, "simple writer")
			e.ClassIf(left > 0, "pairs held back")
			e.ClassIf(runs > 0, "faults")
			e.NonTrivial(runs >= 10 || unsupported || left > 0)
			return nil
		},
	})
}

// ByteEdit overwrites one byte of a file: At from the start, or from the end
// when negative.
type ByteEdit struct {
	At  int  `json:"at"`
	Val byte `json:"val"`
}

// ReadReleaseCase is a list of files, some damaged, and what is asked of them.
type ReadReleaseCase struct {
	Files   []FileSpec   `json:"files"`
	Damage  [][]ByteEdit `json:"damage"` // per file
	Queries []IOQuery    `json:"queries"`
	Fault   int          `json:"fault"` // operation that fails, -1 none
	Lasting bool         `json:"lasting,omitempty"`
	Early   bool         `json:"early,omitempty"` // the first reader is closed before the last queries
}

func quietly(f func()) {
	defer func() {
		if r := recover(); r != nil { // C19 decides what damage may do
			if ee, ok := r.(*EnvError); ok {
				panic(ee)
			}
		}
	}()
	f()
}

func TestC28Read(t *testing.T) {
	Run(t, Prop[ReadReleaseCase]{
		ID: "C28", Part: "readers",
		Rule: "a case is one to three files, some damaged, an operation that fails (once or for good) and a list of reads, the last of them on a closed reader at times; open files and goroutines are counted after every opening, read and close; non-trivial = at least two blocks and a parallel or multi-file read, or a refused file",
		Fixed: func() []ReadReleaseCase {
			var out []ReadReleaseCase
			no := Filter{Nil: true}
			f := FileSpec{Enc: 7}
			for i := 0; i < 9; i++ {
				f.Chunks = append(f.Chunks, Chunk{{N: 20, ID: uint64(100 * i), Step: 2, V: int64(i), VStep: 7}})
			}
			var qs []IOQuery
			for _, par := range []int{0, 1, 2, 3, 8, 9, 10, 64, -1} {
				for _, skip := range []bool{false, true} {
					for _, al := range []Filter{no, {}, {IDs: []uint64{302}}, {From: 0, Len: 1000}} {
						for _, de := range []Filter{no, {From: 0, Len: 300}} {
							qs = append(qs, IOQuery{Op: "agg", Par: par, Skip: skip, Allow: al, Deny: de})
						}
					}
				}
			}
			qs = append(qs, IOQuery{Op: "bad", Index: 0, Allow: no, Deny: no}, IOQuery{Op: "multi", Allow: no, Deny: no}, IOQuery{Op: "caching", On: true, Allow: no, Deny: no}, IOQuery{Op: "multi", Skip: true, Allow: Filter{From: 50, Len: 300}, Deny: no}, IOQuery{Op: "bitmap", Allow: no, Deny: no})
			for fault := -1; fault < 60; fault++ {
				out = append(out, ReadReleaseCase{Files: []FileSpec{f, f}, Queries: qs, Fault: fault, Lasting: fault%3 == 1, Early: fault%4 == 2})
			}
			for at := -24; at < 0; at++ {
				out = append(out, ReadReleaseCase{Files: []FileSpec{f, f}, Damage: [][]ByteEdit{{{at, 0xfe}}}, Queries: qs[:4], Fault: -1})
			}
			for at := 0; at < 64; at++ {
				out = append(out, ReadReleaseCase{Files: []FileSpec{f}, Damage: [][]ByteEdit{{{at, 0xfe}}}, Queries: qs[:4], Fault: -1})
			}
			return out
		},
		Gen: func(t *rapid.T) ReadReleaseCase {
			c := ReadReleaseCase{Fault: -1}
			for n := rapid.IntRange(1, 3).Draw(t, "files"); n > 0; n-- {
				f := GenMidFile(t, 8)
				if rapid.IntRange(0, 2).Draw(t, "blocks") == 0 {
					f.Split = rapid.SampledFrom([]int{1, 2, 7, 30}).Draw(t, "split")
					f.Limit()
				}
				f.Layout = GenLayout(t, true)
				c.Files = append(c.Files, f)
				var d []ByteEdit
				if rapid.IntRange(0, 3).Draw(t, "damaged") == 0 {
					d = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ByteEdit {
						b := ByteEdit{At: rapid.IntRange(-200, 300).Draw(t, "at"), Val: rapid.Byte().Draw(t, "val")}
						return b
					}), 1, 4).Draw(t, "edits")
				}
				c.Damage = append(c.Damage, d)
			}
			ids := SpecIDs(c.Files[0])
			c.Queries = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) IOQuery { return genIOQuery(t, ids) }), 1, 10).Draw(t, "queries")
			if rapid.Bool().Draw(t, "faulty") {
				c.Fault = rapid.IntRange(0, 60).Draw(t, "fault")
				c.Lasting = rapid.Bool().Draw(t, "lasting")
			}
			c.Early = rapid.IntRange(0, 3).Draw(t, "early") == 0
			return c
		},
		Exec: func(e *Env, c ReadReleaseCase) error {
			ownDir(e)
			defer none()
			none()
			var paths []string
			blocks := 0
			for i, f := range c.Files {
				o, err := makeFile(e, f)
				if err != nil {
					return err
				}
				blocks = max(blocks, len(o.blocks))
				paths = append(paths, o.path)
				if i < len(c.Damage) && len(c.Damage[i]) > 0 {
					raw := MustRead(o.path)
					for _, d := range c.Damage[i] {
						at := d.At
						if at < 0 {
							at += len(raw)
						}
						if at >= 0 && at < len(raw) && !(uint64(at) >= o.parsed.BitmapOff && uint64(at) < o.parsed.BitmapOff+o.parsed.BitmapSize) {
							raw[at] = d.Val
						}
					}
					Must(os.WriteFile(o.path, raw, 0o644))
					e.Class("damaged file")
				}
			}
			vos.Reset(func(ev vos.Event) vos.Fault {
				if c.Fault >= 0 && (ev.Seq == c.Fault || c.Lasting && ev.Seq > c.Fault) {
					return vos.Fault{Err: vos.ErrInjected}
				}
				return vos.Fault{}
			}, nil)
			h := hold(e.Dir)
			var readers []*col.Reader
			refused := 0
			for _, p := range append(paths, e.Path()) { // the last one does not exist
				var r *col.Reader
				var err error
				quietly(func() { err = errors.New("panic"); r, err = col.NewReader(p) })
				if err == nil {
					readers = append(readers, r)
				} else {
					refused++
				}
				if err := h.check(len(readers), fmt.Sprintf("opening %d files, of which %d were refused (%v)", len(readers)+refused, refused, err)); err != nil {
					return err
				}
			}
			open := len(readers)
			mr := multicol.NewMultiReader(readers)
			workers := false
			for qi, q := range c.Queries {
				if len(readers) == 0 {
					break
				}
				if c.Early && qi == len(c.Queries)/2 {
					readers[0].Close()
					open--
					if err := h.check(open, "closing a reader"); err != nil {
						return err
					}
				}
				r := readers[q.Index%uint64(len(readers))]
				if q.Op == "agg" || q.New {
					r = readers[qi%len(readers)]
				}
				quietly(func() {
					switch q.Op {
					case "pairs":
						if n := r.BlockCount(); n > 0 {
							r.GetPairs(q.Index % n)
						}
					case "bad":
						r.GetPairs(q.Index + r.BlockCount())
					case "candidates":
						r.FilteredBlockIterator(q.Allow.Bitmap(), q.Deny.Bitmap())
					case "agg":
						workers = workers || q.Par != 0
						r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: q.Skip, Filter: q.Allow.Bitmap(), DenyFilter: q.Deny.Bitmap(), Parallel: q.Par})
					case "multi":
						workers = true
						mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: q.Skip, Filter: q.Allow.Bitmap()})
					case "bitmap":
						r.GetGlobalIDBitmap()
					case "caching":
						if q.On {
							r.EnableGlobalIDBitmapCaching()
						} else {
							r.DisableGlobalIDBitmapCaching()
						}
					case "meta":
						r.DebugInfo()
					}
				})
				e.Class(q.Op)
				if err := h.check(open, fmt.Sprintf("read %d (%s)", qi, q.Op)); err != nil {
					return err
				}
			}
			if len(readers)%2 == 1 {
				for _, r := range readers {
					r.Close()
				}
			} else {
				mr.Close()
			}
			e.ClassIf(refused > 1, "refused file")
			e.ClassIf(c.Fault >= 0, "failing read")
			e.ClassIf(c.Early, "closed reader")
			e.NonTrivial(blocks > 1 && workers || refused > 1)
			return h.check(0, "closing every reader")
		},
	})
}
