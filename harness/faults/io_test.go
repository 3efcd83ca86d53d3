package faults

import (
	"fmt"
	"math"
	"testing"

	. "vibeverif/core"
	"vibeverif/vos"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// IOQuery is one question asked of the open files.
type IOQuery struct {
	Op    string `json:"op"` // pairs bad agg candidates bitmap caching meta multi reopen
	Index uint64 `json:"index,omitempty"`
	On    bool   `json:"on,omitempty"`   // caching
	New   bool   `json:"new,omitempty"`  // caching, bitmap: of the newer file; multi: the newer file first
	Skip  bool   `json:"skip,omitempty"` // SkipPreCalculated
	Par   int    `json:"par,omitempty"`
	Allow Filter `json:"allow"`
	Deny  Filter `json:"deny"`
}

// IOCase is a file, a newer file and the questions, in order.
type IOCase struct {
	File    FileSpec  `json:"file"`
	Newer   FileSpec  `json:"newer"`
	Queries []IOQuery `json:"queries"`
}

func genIOQuery(t *rapid.T, ids []uint64) IOQuery {
	q := IOQuery{Op: rapid.SampledFrom([]string{"agg", "agg", "agg", "agg", "agg", "pairs", "pairs", "bad", "candidates", "bitmap", "bitmap", "caching", "meta", "multi", "multi", "reopen"}).Draw(t, "op"),
		Allow: Filter{Nil: true}, Deny: Filter{Nil: true}}
	switch q.Op {
	case "pairs":
		q.Index = rapid.Uint64Range(0, 1000).Draw(t, "index")
	case "bad":
		q.Index = rapid.SampledFrom([]uint64{0, 1, 1000, 1 << 31, 1 << 32, 1 << 63, math.MaxUint64}).Draw(t, "index")
	case "caching":
		q.On = rapid.IntRange(0, 2).Draw(t, "on") > 0
		q.New = rapid.Bool().Draw(t, "newer")
	case "bitmap":
		q.New = rapid.Bool().Draw(t, "newer")
	case "agg", "candidates", "multi":
		q.Skip = rapid.Bool().Draw(t, "skip")
		q.Par = rapid.SampledFrom([]int{0, 0, 1, 2, 3, -1, 8}).Draw(t, "par")
		if rapid.IntRange(0, 3).Draw(t, "filtered") > 0 {
			q.Allow = GenFilter(t, ids, "allow")
		}
		if rapid.IntRange(0, 3).Draw(t, "denied") == 3 {
			q.Deny = GenFilter(t, ids, "deny")
		}
		q.New = q.Op == "multi" && rapid.IntRange(0, 3).Draw(t, "order") == 3
	}
	return q
}

// candidates tells for each block whether a query with this allow filter may
// need its pairs. An empty filter counts as the range of id 0 alone.
func (o *openFile) candidates(allow Filter) []bool {
	out := make([]bool, len(o.blocks))
	if allow.Nil {
		for i := range out {
			out[i] = true
		}
		return out
	}
	lo, hi := uint64(math.MaxUint64), uint64(0)
	set := allow.Set()
	for id := range set {
		lo, hi = min(lo, id), max(hi, id)
	}
	if len(set) == 0 {
		lo, hi = 0, 0
	}
	for i, b := range o.blocks {
		bl, bh := uint64(math.MaxUint64), uint64(0)
		for _, id := range b.IDs {
			bl, bh = min(bl, id), max(bh, id)
		}
		out[i] = bl <= hi && bh >= lo
	}
	return out
}

// reads collects the byte ranges read since the last look.
type reads struct{ list []vos.Event }

func (r *reads) take() []vos.Event {
	l := r.list
	r.list = nil
	return l
}

// within reports reads of blocks that are not allowed, or of allowed blocks
// far beyond their size.
func (o *openFile) within(evs []vos.Event, allowed []bool) error {
	total := make([]uint64, len(o.blocks))
	for _, ev := range evs {
		if ev.Path != o.path {
			continue
		}
		from, to := uint64(ev.Off), min(uint64(ev.Off)+uint64(ev.N), o.parsed.Len)
		for i, b := range o.parsed.Blocks {
			lo, hi := max(from, b.Offset), min(to, b.Offset+b.Size)
			if lo >= hi {
				continue
			}
			if allowed == nil || !allowed[i] {
				return fmt.Errorf("bytes %d to %d of block %d of %d were read (read of %d bytes at %d)", lo-b.Offset, hi-b.Offset, i, len(o.blocks), ev.N, ev.Off)
			}
			total[i] += hi - lo
		}
	}
	for i, n := range total {
		if n > 2*o.parsed.Blocks[i].Size {
			return fmt.Errorf("%d bytes of block %d, which has %d, were read", n, i, o.parsed.Blocks[i].Size)
		}
	}
	return nil
}

func (o *openFile) only(i int) []bool {
	out := make([]bool, len(o.blocks))
	out[i] = true
	return out
}

func readsBitmap(o *openFile, evs []vos.Event) bool {
	for _, ev := range evs {
		if ev.Path == o.path && ev.N > 0 && uint64(ev.Off) < o.parsed.BitmapOff+o.parsed.BitmapSize && uint64(ev.Off)+uint64(ev.N) > o.parsed.BitmapOff {
			return true
		}
	}
	return false
}

// readsWholeBitmap allows for reads of blocks that touch the bitmap.
func readsWholeBitmap(o *openFile, evs []vos.Event) bool {
	total, end := uint64(0), o.parsed.BitmapOff+o.parsed.BitmapSize
	for _, ev := range evs {
		if lo, hi := max(uint64(ev.Off), o.parsed.BitmapOff), min(uint64(ev.Off)+uint64(ev.N), end); ev.Path == o.path && lo < hi {
			total += hi - lo
		}
	}
	return o.parsed.BitmapSize > 0 && total >= o.parsed.BitmapSize
}

func TestC26(t *testing.T) {
	none := Filter{Nil: true}
	Run(t, Prop[IOCase]{
		ID:   "C26",
		Rule: "a case is a file, a newer file and a list of reads (blocks, bad indices, aggregates with filters, workers and both sources, pruning, bitmap lookups with caching switched, metadata, multi-file aggregates, reopening), with every read operation on the files recorded; non-trivial = a filtered aggregate had both needed and unneeded blocks, or at least three blocks and an unfiltered aggregate from metadata",
		Fixed: func() []IOCase {
			var out []IOCase
			for enc := uint32(0); enc < 8; enc++ {
				f := FileSpec{Enc: enc}
				if enc%2 == 1 {
					f.Layout = &Layout{NoBitmap: enc < 4, BitmapFirst: enc > 4, Reverse: true, Blocks: []BlockLayoutSpec{{Page: true}, {ValFirst: true, GapA: 100, Skip: 300}}}
				}
				for i := 0; i < 6; i++ {
					f.Chunks = append(f.Chunks, Chunk{{N: 40, ID: uint64(100 * i), Step: 2, V: int64(i) - 3, VStep: 7}})
				}
				g := FileSpec{Enc: 7 - enc, Chunks: f.Chunks[2:5]}
				var qs []IOQuery
				for _, par := range []int{0, 1, 2, 3, -1} {
					for _, skip := range []bool{false, true} {
						for _, al := range []Filter{none, {}, {IDs: []uint64{0}}, {IDs: []uint64{302}}, {From: 150, Len: 200}, {IDs: []uint64{5, 505}}, {IDs: []uint64{90}}, {IDs: []uint64{math.MaxUint64}}} {
							for _, de := range []Filter{none, {}, {IDs: []uint64{302, 100}}, {From: 100, Len: 100}} {
								qs = append(qs, IOQuery{Op: "agg", Par: par, Skip: skip, Allow: al, Deny: de})
								if par == 0 {
									qs = append(qs, IOQuery{Op: "multi", Skip: skip, Allow: al, Deny: none}, IOQuery{Op: "candidates", Allow: al, Deny: de})
								}
							}
						}
					}
				}
				for i := uint64(0); i < 6; i++ {
					qs = append(qs, IOQuery{Op: "pairs", Index: i, Allow: none, Deny: none}, IOQuery{Op: "bad", Index: i, Allow: none, Deny: none})
				}
				for _, op := range []string{"bitmap", "bitmap", "meta", "caching", "bitmap", "bitmap", "multi", "bitmap", "multi", "bitmap", "caching", "bitmap", "reopen", "bitmap", "caching", "multi", "bitmap", "multi", "meta", "bitmap"} {
					qs = append(qs, IOQuery{Op: op, On: true, Allow: none, Deny: none})
					if op != "reopen" && op != "meta" {
						qs = append(qs, IOQuery{Op: op, On: true, New: true, Allow: none, Deny: none})
					}
				}
				out = append(out, IOCase{File: f, Newer: g, Queries: qs}, IOCase{File: FileSpec{Enc: enc}, Newer: f, Queries: qs[:60]})
			}
			return out
		},
		Gen: func(t *rapid.T) IOCase {
			c := IOCase{File: GenMidFile(t, 12), Newer: GenSmallFile(t, 4)}
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 0, 1, 2: // many small blocks
				c.File.Split = rapid.SampledFrom([]int{1, 2, 7, 30}).Draw(t, "split")
				c.File.Limit()
			case 3:
				c.File = GenFile(t, 6)
			}
			c.File.Layout, c.Newer.Layout = GenLayout(t, true), GenLayout(t, true)
			ids := SpecIDs(c.File)
			c.Queries = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) IOQuery { return genIOQuery(t, ids) }), 1, 14).Draw(t, "queries")
			return c
		},
		Exec: func(e *Env, c IOCase) error {
			vos.Reset(nil, nil)
			e.ClassIf(c.File.Layout != nil, "foreign layout")
			e.ClassIf(c.File.Layout != nil && c.File.Layout.NoBitmap, "no id bitmap")
			a, err := makeFile(e, c.File)
			if err != nil {
				return err
			}
			b, err := makeFile(e, c.Newer)
			if err != nil {
				return err
			}
			rd := &reads{}
			vos.Reset(nil, func(ev vos.Event) {
				if ev.Op == "read" {
					rd.list = append(rd.list, ev)
				}
			})
			defer vos.Reset(nil, nil)
			open := func(o *openFile) (*col.Reader, error) {
				r, err := col.NewReader(o.path)
				if err != nil {
					return nil, err
				}
				if err := o.within(rd.take(), nil); err != nil {
					r.Close()
					return nil, fmt.Errorf("opening a file: %w", err)
				}
				return r, nil
			}
			ra, err := open(a)
			if err != nil {
				return err
			}
			defer func() { ra.Close() }()
			rb, err := open(b)
			if err != nil {
				return err
			}
			defer rb.Close()
			files := []*openFile{a, b}
			var caching, looked [2]bool
			for qi, q := range c.Queries {
				e.Class(q.Op)
				allowedA, allowedB := make([]bool, len(a.blocks)), []bool(nil)
				f := 0
				if q.New {
					f = 1
				}
				switch q.Op {
				case "pairs":
					i := q.Index
					if len(a.blocks) > 0 {
						i %= uint64(len(a.blocks))
						allowedA = a.only(int(i))
					}
					_, _, err := ra.GetPairs(i)
					if (err == nil) != (len(a.blocks) > 0) {
						return fmt.Errorf("query %d: block %d of %d: %v", qi, i, len(a.blocks), err)
					}
				case "bad":
					if i := q.Index + uint64(len(a.blocks)); i >= uint64(len(a.blocks)) {
						if _, _, err := ra.GetPairs(i); err == nil {
							return fmt.Errorf("query %d: block %d of %d exists", qi, i, len(a.blocks))
						}
					}
				case "candidates":
					ra.FilteredBlockIterator(q.Allow.Bitmap(), q.Deny.Bitmap())
				case "agg":
					meta := q.Allow.Nil && q.Deny.Nil && !q.Skip
					if !meta {
						allowedA = a.candidates(q.Allow)
					}
					yes, no := 0, 0
					for _, x := range allowedA {
						if x {
							yes++
						} else {
							no++
						}
					}
					e.ClassIf(!meta && yes > 0 && no > 0, "some blocks needed")
					e.ClassIf(!meta && yes == 0 && no > 0, "no block needed")
					e.ClassIf(meta, "from metadata")
					e.NonTrivial(!meta && yes > 0 && no > 0 || meta && no >= 3)
					ra.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: q.Skip, Filter: q.Allow.Bitmap(), DenyFilter: q.Deny.Bitmap(), Parallel: q.Par})
				case "multi":
					allowedA, allowedB = a.candidates(q.Allow), b.candidates(q.Allow)
					readers := []*col.Reader{ra, rb}
					if q.New {
						readers = []*col.Reader{rb, ra}
					}
					if _, err := multicol.NewMultiReader(readers).Aggregate(multicol.AggregateOptions{SkipPreCalculated: q.Skip, Filter: q.Allow.Bitmap()}); err != nil {
						return fmt.Errorf("query %d: %w", qi, err)
					}
				case "bitmap":
					if _, err := []*col.Reader{ra, rb}[f].GetGlobalIDBitmap(); err != nil {
						return fmt.Errorf("query %d: %w", qi, err)
					}
				case "caching":
					if r := []*col.Reader{ra, rb}[f]; q.On {
						r.EnableGlobalIDBitmapCaching()
					} else {
						r.DisableGlobalIDBitmapCaching()
					}
					caching[f], looked[f] = q.On, false
				case "meta":
					ra.BlockCount()
					ra.EncodingType()
					ra.Version()
					ra.IsDeltaEncoded()
					ra.IsVarIntEncoded()
					ra.DebugInfo()
				case "reopen":
					r, err := open(a)
					if err != nil {
						return fmt.Errorf("query %d: %w", qi, err)
					}
					ra.Close()
					ra, caching[0], looked[0] = r, false, false
				}
				evs := rd.take()
				if err := a.within(evs, allowedA); err != nil {
					return fmt.Errorf("query %d (%s): %w", qi, q.Op, err)
				}
				if err := b.within(evs, allowedB); err != nil {
					return fmt.Errorf("query %d (%s), newer file: %w", qi, q.Op, err)
				}
				if q.Op == "bitmap" || q.Op == "multi" {
					for i, o := range files {
						if q.Op == "bitmap" && i != f || !caching[i] {
							continue
						}
						if looked[i] {
							e.Class("cached bitmap after " + q.Op)
						}
						read := q.Op == "bitmap" && readsBitmap(o, evs) || readsWholeBitmap(o, evs)
						if read && looked[i] {
							return fmt.Errorf("query %d (%s): the cached id bitmap was read from the file again", qi, q.Op)
						}
						looked[i] = looked[i] || read || q.Op == "bitmap"
					}
				}
			}
			return nil
		},
	})
}
