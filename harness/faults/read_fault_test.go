package faults

import (
	"fmt"
	"io"
	"os"
	"sync"
	"testing"

	. "vibeverif/core"
	"vibeverif/vos"

	"github.com/weaviate/sroar"
	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
)

// RFault is a kind of read-side fault. Kinds "err", "eof" and "short" are
// tried at every operation of the session; "range" makes bytes From..From+Len
// (per mille of the file) unreadable for good; "cut" cuts the file before it is
// opened and "cutopen" once it is open, at many lengths.
type RFault struct {
	Kind  string `json:"kind"`
	Short int    `json:"short,omitempty"`
	From  int    `json:"from,omitempty"`
	Len   int    `json:"len,omitempty"`
}

// RFaultCase is a file, a newer file and the faults reading them meets.
type RFaultCase struct {
	File   FileSpec `json:"file"`
	Newer  FileSpec `json:"newer"` // read together with File
	Filter Filter   `json:"filter"`
	Cached bool     `json:"cached"`
	Faults []RFault `json:"faults"`
	Stride int      `json:"stride"` // distance of lengths for cuts
}

func genRFault(t *rapid.T) RFault {
	f := RFault{Kind: rapid.SampledFrom([]string{"err", "err", "eof", "short", "range", "range", "range", "cut", "cutopen"}).Draw(t, "kind")}
	switch f.Kind {
	case "eof", "short":
		f.Short = rapid.SampledFrom([]int{0, 1, 4, 7, 8, 1 << 20, -1, -8, -9}).Draw(t, "short")
	case "range":
		f.From = rapid.IntRange(0, 1000).Draw(t, "from")
		f.Len = rapid.SampledFrom([]int{0, 1, 30, 300}).Draw(t, "len")
	}
	return f
}

// readBlockLog collects the reads that failed.
type failedReads struct {
	mu   sync.Mutex
	list []vos.Event
	bad  int // failed operations of other kinds
}

func (f *failedReads) add(ev vos.Event) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if ev.Op == "read" {
		f.list = append(f.list, ev)
	} else {
		f.bad++
	}
}

func (f *failedReads) take() (l []vos.Event, bad int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	l, bad = f.list, f.bad
	f.list, f.bad = nil, 0
	return
}

// openFile is a file the session reads, with what it should hold.
type openFile struct {
	path   string
	blocks []Pairs
	parsed *Parsed
}

func makeFile(e *Env, f FileSpec) (*openFile, error) {
	o := &openFile{path: e.Path()}
	var err error
	if o.blocks, err = f.Write(o.path); err != nil {
		return nil, err
	}
	if o.parsed, err = ParseAny(MustRead(o.path)); err != nil {
		return nil, fmt.Errorf("undamaged file: %w", err)
	}
	return o, nil
}

// without lists the pairs of the blocks none of the failed reads touched.
func (o *openFile) without(failed []vos.Event) []Pairs {
	out := make([]Pairs, len(o.blocks))
	for i, b := range o.blocks {
		pb := o.parsed.Blocks[i]
		hit := false
		for _, ev := range failed {
			if ev.Path == o.path && uint64(ev.Off) < pb.Offset+pb.Size && uint64(ev.Off)+uint64(ev.N) > pb.Offset {
				hit = true
			}
		}
		if !hit {
			out[i] = b
		}
	}
	return out
}

func newestWins(files [][]Pairs, present [][]Pairs, allow map[uint64]bool) Pairs {
	seen := map[uint64]bool{}
	var out Pairs
	for i := len(files) - 1; i >= 0; i-- {
		out.Append(Flatten(present[i]).Select(allow, seen))
		for _, id := range Flatten(files[i]).IDs {
			seen[id] = true
		}
	}
	return out
}

// session opens the files, asks every kind of question and judges the answers
// given the operations that failed. after runs once both files are open.
func session(e *Env, c RFaultCase, a, b *openFile, fr *failedReads, after func() error) error {
	e.Progress()
	opens, closes := 0, 0
	count := func(ev vos.Event) {
		switch ev.Op {
		case "open", "create":
			opens++
		case "close":
			closes++
		}
	}
	open := func(o *openFile) (*col.Reader, error) {
		before := opens - closes
		r, err := col.NewReader(o.path)
		if err != nil {
			if opens-closes != before {
				return nil, fmt.Errorf("opening failed (%v) but the file was not closed again", err)
			}
			return nil, nil
		}
		if r.BlockCount() != uint64(len(o.blocks)) {
			r.Close()
			return nil, fmt.Errorf("opens with %d blocks, want %d", r.BlockCount(), len(o.blocks))
		}
		return r, nil
	}
	vosObserve(count)
	ra, err := open(a)
	if ra == nil {
		e.ClassIf(err == nil, "open refused")
		return err
	}
	defer ra.Close()
	rb, err := open(b)
	if rb == nil {
		e.ClassIf(err == nil, "open refused")
		return err
	}
	defer rb.Close()
	if after != nil {
		if err := after(); err != nil {
			return err
		}
	}
	fr.take()
	e.Class("session")
	if c.Cached {
		ra.EnableGlobalIDBitmapCaching()
	}
	bitmap := func(r *col.Reader, o *openFile) error {
		bm, err := r.GetGlobalIDBitmap()
		failed, _ := fr.take()
		if err != nil {
			e.Class("bitmap error")
			return nil
		}
		if err := SameBitmap(Flatten(o.blocks).IDSet(), bm); err != nil {
			return fmt.Errorf("id bitmap (%d failed reads): %w", len(failed), err)
		}
		return nil
	}
	// blocks
	readable := make([]Pairs, len(a.blocks))
	for i := range a.blocks {
		ids, vals, err := ra.GetPairs(uint64(i))
		failed, _ := fr.take()
		if err != nil {
			e.Class("block error")
			if ids != nil || vals != nil {
				return fmt.Errorf("block %d: data and error %v", i, err)
			}
			continue
		}
		if err := SamePairs(a.blocks[i], Pairs{IDs: ids, Vals: vals}); err != nil {
			return fmt.Errorf("block %d (%d failed reads): %w", i, len(failed), err)
		}
		readable[i] = a.blocks[i]
	}
	if err := bitmap(ra, a); err != nil {
		return err
	}
	if err := bitmap(ra, a); err != nil { // cached, perhaps
		return err
	}
	// aggregates
	allow := c.Filter.Set()
	type q struct {
		name        string
		opts        col.AggregateOptions
		allow, deny map[uint64]bool
	}
	qs := []q{
		{"scan", col.AggregateOptions{SkipPreCalculated: true}, nil, nil},
		{"parallel scan", col.AggregateOptions{SkipPreCalculated: true, Parallel: 2}, nil, nil},
		{"scan with more workers than blocks", col.AggregateOptions{SkipPreCalculated: true, Parallel: 64}, nil, nil},
		{"denied", col.AggregateOptions{DenyFilter: bitmapOf(allow)}, nil, allow},
	}
	if allow != nil {
		qs = append(qs, q{"allowed", col.AggregateOptions{Filter: bitmapOf(allow)}, allow, nil}, q{"parallel allowed", col.AggregateOptions{Filter: bitmapOf(allow), Parallel: 3}, allow, nil})
	}
	cut := after != nil
	for _, q := range qs {
		got := ra.AggregateWithOptions(q.opts)
		failed, _ := fr.take()
		present := a.without(failed)
		if cut {
			present = readable
		}
		err := SameAgg(Agg(Flatten(present).Select(q.allow, q.deny)), got)
		if err != nil && SameAgg(Agg(Flatten(a.blocks).Select(q.allow, q.deny)), got) != nil {
			return fmt.Errorf("%s, %d failed reads: %w", q.name, len(failed), err)
		}
		e.ClassIf(len(failed) > 0, "aggregate with failed reads")
	}
	for _, par := range []int{0, 2} {
		if err := SameAgg(Agg(Flatten(a.blocks)), ra.AggregateWithOptions(col.AggregateOptions{Parallel: par})); err != nil {
			return fmt.Errorf("aggregate from metadata: %w", err)
		}
	}
	fr.take()
	// both files together
	for _, al := range []map[uint64]bool{nil, allow} {
		o := multicol.AggregateOptions{Filter: bitmapOf(al)}
		if al == nil {
			o.Filter = nil
		}
		got, err := multicol.NewMultiReader([]*col.Reader{ra, rb}).Aggregate(o)
		failed, _ := fr.take()
		if err != nil {
			continue
		}
		all := [][]Pairs{a.blocks, b.blocks}
		present := [][]Pairs{a.without(failed), b.without(failed)}
		if cut {
			present = [][]Pairs{readable, b.blocks}
		}
		if err := SameAgg(Agg(newestWins(all, present, al)), got); err != nil && SameAgg(Agg(newestWins(all, all, al)), got) != nil {
			return fmt.Errorf("both files, %d failed reads: %w", len(failed), err)
		}
	}
	return nil
}

var observer func(vos.Event)

func vosObserve(f func(vos.Event)) { observer = f }

func bitmapOf(set map[uint64]bool) *sroar.Bitmap {
	b := sroar.NewBitmap()
	for id := range set {
		b.Set(id)
	}
	return b
}

// reset installs a decider that records the operations it makes fail.
func reset(fr *failedReads, decide func(vos.Event) vos.Fault) {
	observer = nil
	vos.Reset(func(ev vos.Event) vos.Fault {
		if decide == nil {
			return vos.Fault{}
		}
		ft := decide(ev)
		if ft.Err != nil {
			fr.add(ev)
		}
		return ft
	}, func(ev vos.Event) {
		if observer != nil {
			observer(ev)
		}
	})
}

// lengths to cut a file at: around every structure border, and a raster.
func lengths(p *Parsed, stride int) []int64 {
	m := map[int64]bool{}
	near := func(x uint64) {
		for d := int64(-2); d <= 2; d++ {
			m[int64(x)+d] = true
		}
	}
	near(0)
	near(64)
	near(p.BitmapOff)
	near(p.BitmapOff + 4)
	near(p.BitmapOff + p.BitmapSize)
	near(p.FooterStart)
	near(p.FooterStart + 4)
	near(p.Len - 24)
	near(p.Len - 16)
	near(p.Len - 8)
	near(p.Len)
	for i, b := range p.Blocks {
		if i > 6 && i < len(p.Blocks)-3 {
			continue
		}
		near(b.Offset)
		near(b.Offset + 64)
		near(b.Offset + 80)
		near(b.Offset + b.Used)
		near(b.Offset + b.Size)
		near(p.FooterStart + 4 + 56*uint64(i))
		for k := b.Offset + 80; k < b.Offset+b.Used && k < b.Offset+140; k++ {
			m[int64(k)] = true
		}
	}
	for x := int64(0); x < int64(p.Len); x += int64(stride) {
		m[x] = true
	}
	var out []int64
	for x := int64(p.Len) - 1; x >= 0; x-- {
		if m[x] {
			out = append(out, x)
		}
	}
	return out
}

func TestC18(t *testing.T) {
	all := []RFault{{Kind: "err"}, {Kind: "eof"}, {Kind: "eof", Short: 1}, {Kind: "eof", Short: 1 << 20}, {Kind: "eof", Short: -1}, {Kind: "short", Short: 1 << 20}, {Kind: "short", Short: -1}, {Kind: "cut"}, {Kind: "cutopen"}}
	for from := 0; from < 1000; from += 30 {
		all = append(all, RFault{Kind: "range", From: from, Len: 1}, RFault{Kind: "range", From: from, Len: 200})
	}
	Run(t, Prop[RFaultCase]{
		ID:   "C18",
		Rule: "a case is a file, a newer file read along with it and a list of fault kinds: an error or short read at every operation of a session of all queries, an unreadable byte range, or a cut at many lengths before or after opening; non-trivial = the file has pairs and at least 15 faulty sessions were run",
		Fixed: func() []RFaultCase {
			var out []RFaultCase
			for enc := uint32(0); enc < 8; enc++ {
				two := []Chunk{{{N: 3, ID: 7, Step: 2, V: -50, VStep: 33}}, {{N: 4, ID: 10, Step: 1, V: 900, VStep: -7}}}
				files := []FileSpec{{Enc: enc}, {Enc: enc, Chunks: two}, {Enc: enc, Chunks: []Chunk{two[0], two[1], two[0], {{N: 30, ID: 100, Step: 1, V: 5, VStep: 1}}}}}
				for i, f := range files {
					stride := 1
					if i == 2 || enc%3 == 1 {
						stride = 97
					}
					out = append(out, RFaultCase{File: f, Newer: FileSpec{Enc: 7 - enc, Chunks: two[1:]}, Filter: Filter{IDs: []uint64{7, 10, 11, 110}}, Cached: enc%2 == 1, Faults: all, Stride: stride})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) RFaultCase {
			c := RFaultCase{File: GenSmallFile(t, 5), Newer: GenSmallFile(t, 2), Cached: rapid.Bool().Draw(t, "cached"), Stride: rapid.IntRange(200, 1500).Draw(t, "stride")}
			if rapid.IntRange(0, 5).Draw(t, "larger") == 5 {
				c.File = GenMidFile(t, 4)
			}
			switch rapid.IntRange(0, 3).Draw(t, "filter") {
			case 0:
				c.Filter = Filter{Nil: true}
			case 1:
				c.Filter = Filter{From: rapid.Uint64Range(0, 50).Draw(t, "ffrom"), Len: rapid.IntRange(0, 60).Draw(t, "flen")}
			default:
				for _, ch := range c.File.Chunks {
					if p := ch.Expand(); p.Len() > 0 {
						c.Filter.IDs = append(c.Filter.IDs, p.IDs[rapid.IntRange(0, p.Len()-1).Draw(t, "fid")])
					}
				}
			}
			c.Faults = rapid.SliceOfN(rapid.Custom(genRFault), 1, 4).Draw(t, "faults")
			return c
		},
		Exec: func(e *Env, c RFaultCase) error {
			none()
			a, err := makeFile(e, c.File)
			if err != nil {
				return err
			}
			b, err := makeFile(e, c.Newer)
			if err != nil {
				return err
			}
			fr := &failedReads{}
			reset(fr, nil)
			defer none()
			if err := session(e, c, a, b, fr, nil); err != nil {
				return fmt.Errorf("without faults: %w", err)
			}
			n := vos.Count()
			runs := 0
			orig := MustRead(a.path)
			for _, f := range c.Faults {
				switch f.Kind {
				case "range":
					// per mille of the file: From..From+Len, at least one byte
					from := int64(f.From) * int64(len(orig)) / 1000
					to := max(from+1, from+int64(f.Len)*int64(len(orig))/1000)
					active := false
					dec := func(ev vos.Event) vos.Fault {
						if active && ev.Op == "read" && ev.Path == a.path && ev.Off < to && ev.Off+int64(ev.N) > from {
							return vos.Fault{Err: vos.ErrInjected, Short: int(max(0, from-ev.Off))}
						}
						return vos.Fault{}
					}
					for _, late := range []bool{false, true} {
						active = !late
						reset(fr, dec)
						runs++
						var after func() error
						if late {
							after = func() error { active = true; return nil }
						}
						if err := session(e, c, a, b, fr, after); err != nil {
							return fmt.Errorf("bytes %d to %d unreadable (after opening: %v): %w", from, to, late, err)
						}
					}
				case "cut":
					for _, l := range lengths(a.parsed, c.Stride) {
						Must(os.Truncate(a.path, l))
						reset(fr, nil)
						runs++
						if err := session(e, c, a, b, fr, func() error { return nil }); err != nil {
							return fmt.Errorf("file of %d bytes cut to %d: %w", len(orig), l, err)
						}
					}
					Must(os.WriteFile(a.path, orig, 0o644))
				case "cutopen":
					ls := lengths(a.parsed, max(150, c.Stride))
					for _, l := range ls {
						reset(fr, nil)
						runs++
						err := session(e, c, a, b, fr, func() error { Must(os.Truncate(a.path, l)); return nil })
						Must(os.WriteFile(a.path, orig, 0o644))
						if err != nil {
							return fmt.Errorf("file of %d bytes cut to %d while open: %w", len(orig), l, err)
						}
					}
				default:
					for k := 0; k < n; k++ {
						reset(fr, func(ev vos.Event) vos.Fault {
							if ev.Seq != k {
								return vos.Fault{}
							}
							ft := vos.Fault{Err: vos.ErrInjected}
							if ev.Op == "read" && f.Kind != "err" {
								ft.Short = min(shortOf(f.Short, ev.N), ev.N-1)
								if f.Kind == "eof" {
									ft.Err = io.EOF
								}
							}
							return ft
						})
						runs++
						if err := session(e, c, a, b, fr, nil); err != nil {
							return fmt.Errorf("%s (%d) at operation %d of %d: %w", f.Kind, f.Short, k, n, err)
						}
					}
				}
			}
			for k := 0; k < runs; k += 100 {
				e.Class("hundreds of faulty sessions")
			}
			e.NonTrivial(c.File.N() > 0 && runs >= 15)
			return nil
		},
	})
}
