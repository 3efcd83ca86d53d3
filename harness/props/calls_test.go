package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	. "vibeverif/core"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// Call is one call on a writer.
type Call struct {
	Kind   string `json:"kind"`
	Data   Chunk  `json:"data,omitempty"`
	Extra  int    `json:"extra,omitempty"` // mismatch: ids minus values
	Target int    `json:"target,omitempty"`
}

// CallCase is a history of a writer (or simple writer), good and bad calls.
type CallCase struct {
	Simple bool   `json:"simple"`
	Enc    uint32 `json:"enc"`
	Target uint32 `json:"target"`
	Calls  []Call `json:"calls"`
	After  []Call `json:"after"`          // made once the file is closed
	Open   []Call `json:"open,omitempty"` // made once it is finalized, before it is closed (block writer)
}

func goodCall(k string) bool { return k == "write" || k == "target" || k == "estimate" }

func genCall(simple, after bool) *rapid.Generator[Call] {
	return rapid.Custom(func(t *rapid.T) Call {
		kinds := []string{"write", "write", "mismatch", "mismatch", "empty", "nil", "estimate", "badestimate", "noestimate"}
		if simple {
			kinds = []string{"write", "write", "write", "mismatch", "mismatch", "empty", "nil", "target", "badtarget"}
		}
		if after {
			kinds = append(kinds, "close", "close", "finalize")
		}
		c := Call{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch c.Kind {
		case "write", "mismatch", "estimate", "badestimate":
			c.Data = GenChunk(t, GenSize(t), 3)
			c.Extra = rapid.SampledFrom([]int{1, -1, 2, -3, 1 << 30, -(1 << 30)}).Draw(t, "extra")
		case "target":
			c.Target = rapid.SampledFrom([]int{4096, 8192, 16384, 128 * 1024}).Draw(t, "settarget")
		case "badtarget":
			c.Target = rapid.SampledFrom([]int{-1, -4096, math.MinInt, 1 << 32, 1<<32 + 4096, 1<<40 + 8192, math.MaxInt}).Draw(t, "badtarget")
		}
		return c
	})
}

func mismatched(c Call) ([]uint64, []int64) {
	p := c.Data.Expand()
	d := c.Extra
	if d > 0 { // more ids than values
		if d > p.Len() {
			d = p.Len()
		}
		return p.IDs, p.Vals[:p.Len()-d]
	}
	d = -d
	if d > p.Len() {
		d = p.Len()
	}
	return p.IDs[:p.Len()-d], p.Vals
}

// playCalls runs the history; bad says whether the bad calls are made too.
func playCalls(path string, c CallCase, bad bool) (all []Pairs, err error) {
	o := []col.WriterOption{col.WithEncoding(c.Enc)}
	if c.Target != 0 {
		o = append(o, col.WithBlockSize(c.Target))
	}
	supported := c.Enc < 8
	if c.Simple {
		w, err := col.NewSimpleWriter(path, o...)
		if err != nil {
			return nil, fmt.Errorf("new simple writer: %w", err)
		}
		for i, k := range c.Calls {
			if !bad && !goodCall(k.Kind) {
				continue
			}
			total := w.TotalItems()
			switch k.Kind {
			case "write":
				p := k.Data.Expand()
				if err := w.Write(p.IDs, p.Vals); err != nil {
					return nil, fmt.Errorf("call %d: %w", i, err)
				}
				all = append(all, p)
			case "target":
				if err := w.SetTargetBlockSize(k.Target); err != nil {
					return nil, fmt.Errorf("call %d: %w", i, err)
				}
			case "badtarget":
				if err := w.SetTargetBlockSize(k.Target); err == nil {
					return nil, fmt.Errorf("call %d: size target %d accepted", i, k.Target)
				}
			case "mismatch":
				ids, vals := mismatched(k)
				if err := w.Write(ids, vals); err == nil {
					return nil, fmt.Errorf("call %d: batch of %d ids and %d values accepted", i, len(ids), len(vals))
				}
			case "empty":
				if err := w.Write([]uint64{}, []int64{}); err != nil {
					return nil, fmt.Errorf("call %d: empty batch: %w", i, err)
				}
			case "nil":
				if err := w.Write(nil, nil); err != nil {
					return nil, fmt.Errorf("call %d: nil batch: %w", i, err)
				}
			}
			if !goodCall(k.Kind) && w.TotalItems() != total {
				return nil, fmt.Errorf("call %d: rejected call changed the item total", i)
			}
			if w.IsClosed() {
				return nil, fmt.Errorf("call %d: writer says it is closed", i)
			}
		}
		if err := w.Close(); err != nil {
			return nil, fmt.Errorf("close: %w", err)
		}
		total := w.TotalItems()
		if !bad {
			return all, nil
		}
		for i, k := range c.After {
			var err error
			want := true
			switch k.Kind {
			case "write":
				p := k.Data.Expand()
				err = w.Write(p.IDs, p.Vals)
			case "target", "badtarget":
				err = w.SetTargetBlockSize(k.Target)
			case "mismatch":
				err = w.Write(mismatched(k))
			case "empty", "nil":
				w.Write(nil, nil) // a no-op or an error, either is fine
				continue
			default:
				err, want = w.Close(), false
			}
			if (err != nil) != want {
				return nil, fmt.Errorf("call %d after close (%s): error is %v", i, k.Kind, err)
			}
			if w.TotalItems() != total || !w.IsClosed() {
				return nil, fmt.Errorf("call %d after close (%s): total %d (was %d), closed %v", i, k.Kind, w.TotalItems(), total, w.IsClosed())
			}
		}
		return all, nil
	}

	w, err := col.NewWriter(path, o...)
	if err != nil {
		return nil, fmt.Errorf("new writer: %w", err)
	}
	for i, k := range c.Calls {
		if supported && !bad && !goodCall(k.Kind) {
			continue
		}
		if !supported && !bad {
			continue
		}
		var err error
		switch k.Kind {
		case "write":
			p := k.Data.Expand()
			if !supported {
				err = w.WriteBlock(p.IDs, p.Vals)
				var full *col.BlockFullError
				if err == nil || errors.As(err, &full) {
					return nil, fmt.Errorf("call %d: block written with encoding %d: %v", i, c.Enc, err)
				}
				continue
			}
			b, err := WriteAll(w, p)
			if err != nil {
				return nil, fmt.Errorf("call %d: %w", i, err)
			}
			all = append(all, b...)
			continue
		case "estimate":
			p := k.Data.Expand()
			_, err := w.EstimateBlockSize(p.IDs, p.Vals)
			if (err == nil) != supported {
				return nil, fmt.Errorf("call %d: estimate with encoding %d: %v", i, c.Enc, err)
			}
			continue
		case "badestimate":
			_, err = w.EstimateBlockSize(mismatched(k))
		case "noestimate":
			_, err = w.EstimateBlockSize(nil, []int64{})
		case "mismatch":
			err = w.WriteBlock(mismatched(k))
		case "empty":
			err = w.WriteBlock([]uint64{}, []int64{})
		case "nil":
			err = w.WriteBlock(nil, nil)
		}
		var full *col.BlockFullError
		if err == nil || errors.As(err, &full) {
			return nil, fmt.Errorf("call %d (%s): error is %v", i, k.Kind, err)
		}
	}
	if !bad || len(c.Open) == 0 {
		if err := w.FinalizeAndClose(); err != nil {
			return nil, fmt.Errorf("finalize: %w", err)
		}
	} else {
		if err := w.Finalize(); err != nil {
			return nil, fmt.Errorf("finalize: %w", err)
		}
		if err := playLate(w, c.Open, func() error {
			w.Finalize() // a complete file stays as it is, reported or not
			return errNone
		}); err != nil {
			return nil, fmt.Errorf("after finalization: %w", err)
		}
		if err := w.Close(); err != nil {
			return nil, fmt.Errorf("close: %w", err)
		}
	}
	if !bad {
		return all, nil
	}
	if err := playLate(w, c.After, w.FinalizeAndClose); err != nil {
		return nil, fmt.Errorf("after close: %w", err)
	}
	return all, nil
}

var errNone = errors.New("no matter")

// playLate makes calls that come too late for the file: all must be refused.
func playLate(w *col.Writer, calls []Call, finalize func() error) error {
	for i, k := range calls {
		var err error
		switch k.Kind {
		case "write":
			p := k.Data.Expand()
			err = w.WriteBlock(p.IDs, p.Vals)
		case "mismatch":
			err = w.WriteBlock(mismatched(k))
		case "empty", "nil":
			err = w.WriteBlock(nil, nil)
		case "finalize":
			err = finalize()
		case "estimate":
			p := k.Data.Expand()
			w.EstimateBlockSize(p.IDs, p.Vals) // may still be answered
			continue
		case "close":
			w.Close() // closing twice may be reported or not
			continue
		default:
			continue
		}
		var full *col.BlockFullError
		if err == nil || errors.As(err, &full) {
			return fmt.Errorf("call %d (%s): error is %v", i, k.Kind, err)
		}
	}
	return nil
}

// withoutTime zeroes the creation time of the file header.
func withoutTime(b []byte) []byte {
	c := append([]byte(nil), b...)
	for i := 36; i < 44 && i < len(c); i++ {
		c[i] = 0
	}
	return c
}

func sameFile(a, b []byte) error {
	a, b = withoutTime(a), withoutTime(b)
	if bytes.Equal(a, b) {
		return nil
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Errorf("files of %d and %d bytes differ first at offset %d", len(a), len(b), i)
}

func TestC15(t *testing.T) {
	Run(t, Prop[CallCase]{
		ID:   "C15",
		Rule: "a case is a writer history mixing accepted calls with calls outside the contract, then calls after close; it is played with and without the bad calls and the files compared; non-trivial = at least one bad call between or after accepted ones with pairs",
		Fixed: func() []CallCase {
			var out []CallCase
			d := Chunk{{N: 3, ID: 9, Step: 2, V: -4, VStep: 3}}
			big := Chunk{{N: 1300, ID: 900, Step: 2, V: -4, VStep: 3, Mode: 2}}
			var bads []Call
			for _, k := range []string{"mismatch", "empty", "nil", "badestimate", "noestimate"} {
				for _, x := range []int{1, -1, 1 << 30, -(1 << 30)} {
					bads = append(bads, Call{Kind: k, Data: d, Extra: x}, Call{Kind: k, Data: big, Extra: x})
				}
			}
			after := append([]Call{{Kind: "write", Data: d}, {Kind: "target", Target: 4096}, {Kind: "close"}, {Kind: "write", Data: big}, {Kind: "finalize"}, {Kind: "close"}}, bads...)
			for enc := uint32(0); enc < 8; enc++ {
				for _, simple := range []bool{false, true} {
					for _, b := range bads {
						if simple && strings.HasSuffix(b.Kind, "estimate") {
							continue
						}
						if !simple {
							late := []Call{b, {Kind: "write", Data: d}, {Kind: "finalize"}, {Kind: "write", Data: big}, {Kind: "estimate", Data: d}, {Kind: "finalize"}, b}
							out = append(out, CallCase{Enc: enc, Calls: []Call{{Kind: "write", Data: d}, {Kind: "write", Data: big}}, Open: late, After: after},
								CallCase{Enc: enc, Open: late}, CallCase{Enc: enc, Calls: []Call{{Kind: "write", Data: big}}, Open: []Call{{Kind: "finalize"}, {Kind: "finalize"}}})
						}
						out = append(out, CallCase{Simple: simple, Enc: enc, Calls: []Call{b, {Kind: "write", Data: d}, b, b, {Kind: "write", Data: big}, b, {Kind: "write", Data: d}, b}, After: after})
					}
				}
			}
			for _, enc := range []uint32{8, 9, 255, 256, 1 << 16, 1<<32 - 1} {
				out = append(out, CallCase{Enc: enc, Calls: append([]Call{{Kind: "write", Data: d}, {Kind: "estimate", Data: d}, {Kind: "write", Data: big}}, bads...), After: after})
			}
			return out
		},
		Gen: func(t *rapid.T) CallCase {
			c := CallCase{Simple: rapid.Bool().Draw(t, "simple"), Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 0, 4096, 8192, 5000}).Draw(t, "target")}
			if !c.Simple && rapid.IntRange(0, 7).Draw(t, "badenc") == 7 {
				c.Enc = rapid.OneOf(rapid.Uint32Range(8, 20), rapid.Uint32Range(8, 1<<32-1)).Draw(t, "unsupported")
			}
			c.Calls = rapid.SliceOfN(genCall(c.Simple, false), 1, 7).Draw(t, "calls")
			c.After = rapid.SliceOfN(genCall(c.Simple, true), 0, 4).Draw(t, "after")
			if !c.Simple && rapid.IntRange(0, 2).Draw(t, "late") == 2 {
				for _, k := range rapid.SliceOfN(genCall(false, true), 1, 5).Draw(t, "open") {
					if k.Kind != "close" {
						c.Open = append(c.Open, k)
					}
				}
			}
			n := 4000
			for i := range c.Calls {
				for j := range c.Calls[i].Data {
					s := &c.Calls[i].Data[j]
					s.N = min(s.N, n)
					n = max(1, n-s.N)
				}
			}
			return c
		},
		Exec: func(e *Env, c CallCase) error {
			p1, p2 := e.Path(), e.Path()
			with, err := playCalls(p1, c, true)
			if err != nil {
				return fmt.Errorf("with the bad calls: %w", err)
			}
			without, err := playCalls(p2, c, false)
			if err != nil {
				return fmt.Errorf("without the bad calls: %w", err)
			}
			if err := SameBlocks(without, with); err != nil {
				return fmt.Errorf("blocks accepted with and without the bad calls: %w", err)
			}
			nb := len(c.After)
			for _, k := range c.Calls {
				e.Class("call " + k.Kind)
				if !goodCall(k.Kind) {
					nb++
				}
			}
			e.ClassIf(c.Enc >= 8, "unsupported encoding")
			e.ClassIf(c.Simple, "simple writer")
			e.ClassIf(len(c.Open) > 0, "calls after finalization")
			nb += len(c.Open)
			e.NonTrivial(nb > 0 && (len(with) > 0 || c.Enc >= 8))
			if err := sameFile(MustRead(p1), MustRead(p2)); err != nil {
				return fmt.Errorf("with and without the bad calls: %w", err)
			}
			return nil
		},
	})
}

func TestC15Unsupported(t *testing.T) {
	Run(t, Prop[CallCase]{
		ID: "C15", Part: "unsupported",
		Rule: "a case is a simple writer with an unsupported encoding and batches; non-trivial = a batch with pairs",
		Gen: func(t *rapid.T) CallCase {
			return CallCase{Simple: true, Enc: rapid.OneOf(rapid.Uint32Range(8, 20), rapid.Uint32Range(8, 1<<32-1)).Draw(t, "unsupported"),
				Calls: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Call {
					return Call{Kind: "write", Data: GenChunk(t, GenSize(t), 4)}
				}), 1, 3).Draw(t, "calls")}
		},
		Exec: func(e *Env, c CallCase) error {
			path := e.Path()
			w, err := col.NewSimpleWriter(path, col.WithEncoding(c.Enc))
			if err != nil {
				return nil // refusing at once is fine
			}
			reported := false
			for _, k := range c.Calls {
				p := k.Data.Expand()
				reported = w.Write(p.IDs, p.Vals) != nil || reported
			}
			if err := w.Close(); err != nil {
				reported = true
			}
			e.NonTrivial(true)
			if !reported {
				return fmt.Errorf("pairs written and closed with encoding %d without an error", c.Enc)
			}
			if w.TotalItems() != 0 {
				return fmt.Errorf("%d items reported written with encoding %d", w.TotalItems(), c.Enc)
			}
			return nil
		},
	})
}

// SameCase is a set of writers and what their file names held before.
type SameCase struct {
	Writers []CallCase `json:"writers"`
	Prior   string     `json:"prior"` // none, garbage, complete, same
	Old     FileSpec   `json:"old"`
	Order   []int      `json:"order"` // interleaving of the writers' calls
	Threads bool       `json:"threads"`
}

// stepper makes the calls of one writer one at a time.
type stepper struct {
	c    CallCase
	path string
	i    int
	w    *col.Writer
	sw   *col.SimpleWriter
	t0   int64
	t1   int64
}

func (s *stepper) step() (done bool, err error) {
	if s.w == nil && s.sw == nil {
		s.t0 = time.Now().Unix()
		o := []col.WriterOption{col.WithEncoding(s.c.Enc)}
		if s.c.Target != 0 {
			o = append(o, col.WithBlockSize(s.c.Target))
		}
		if s.c.Simple {
			s.sw, err = col.NewSimpleWriter(s.path, o...)
		} else {
			s.w, err = col.NewWriter(s.path, o...)
		}
		return false, err
	}
	if s.i >= len(s.c.Calls) {
		if s.sw != nil {
			err = s.sw.Close()
		} else {
			err = s.w.FinalizeAndClose()
		}
		s.t1 = time.Now().Unix()
		return true, err
	}
	k := s.c.Calls[s.i]
	s.i++
	switch {
	case k.Kind == "target" && s.sw != nil:
		err = s.sw.SetTargetBlockSize(k.Target)
	case k.Kind == "write" && s.sw != nil:
		p := k.Data.Expand()
		err = s.sw.Write(p.IDs, p.Vals)
	case k.Kind == "write":
		_, err = WriteAll(s.w, k.Data.Expand())
	case k.Kind == "estimate" && s.w != nil:
		p := k.Data.Expand()
		_, err = s.w.EstimateBlockSize(p.IDs, p.Vals)
	}
	if err != nil {
		err = fmt.Errorf("call %d: %w", s.i-1, err)
	}
	return false, err
}

func (s *stepper) run() error {
	for {
		done, err := s.step()
		if done || err != nil {
			return err
		}
	}
}

func TestC21(t *testing.T) {
	Run(t, Prop[SameCase]{
		ID:   "C21",
		Rule: "a case is one to four writer histories run alone on fresh names and then again over prior file contents, interleaved call by call or on concurrent threads; non-trivial = prior contents or at least two writers, and a history with pairs",
		Gen: func(t *rapid.T) SameCase {
			c := SameCase{Prior: rapid.SampledFrom([]string{"none", "garbage", "complete", "complete", "same"}).Draw(t, "prior"), Threads: rapid.Bool().Draw(t, "threads")}
			c.Old = GenSmallFile(t, 8)
			n := 3000
			c.Writers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CallCase {
				w := CallCase{Simple: rapid.Bool().Draw(t, "simple"), Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 0, 4096, 8192, 100}).Draw(t, "target")}
				kinds := []string{"write", "write", "write", "estimate"}
				if w.Simple {
					kinds[3] = "target"
				}
				w.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Call {
					k := Call{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Target: 4096}
					if k.Kind != "target" {
						k.Data = GenChunk(t, GenSize(t), 3)
					}
					return k
				}), 0, 5).Draw(t, "calls")
				if w.Target == 100 {
					for i := range w.Calls {
						for j := range w.Calls[i].Data {
							w.Calls[i].Data[j].N = min(w.Calls[i].Data[j].N, 20)
						}
					}
				}
				for i := range w.Calls {
					for j := range w.Calls[i].Data {
						s := &w.Calls[i].Data[j]
						s.N = min(s.N, n)
						n = max(1, n-s.N)
					}
				}
				return w
			}), 1, 4).Draw(t, "writers")
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 24).Draw(t, "order")
			return c
		},
		Fixed: func() []SameCase {
			var out []SameCase
			d := []Call{{Kind: "write", Data: Chunk{{N: 5, ID: 3, Step: 2, V: -8, VStep: 3}}}}
			long := FileSpec{Enc: 3, Chunks: []Chunk{{{N: 900, ID: 3, Step: 2, V: 1 << 50, VStep: 3}}, {{N: 900, ID: 4000, Step: 2, V: 1 << 50, VStep: 3}}}}
			for enc := uint32(0); enc < 8; enc++ {
				for _, simple := range []bool{false, true} {
					for _, calls := range [][]Call{nil, d, append(append([]Call(nil), d...), d...)} {
						for _, prior := range []string{"none", "garbage", "complete", "same"} {
							w := CallCase{Simple: simple, Enc: enc, Calls: calls}
							out = append(out, SameCase{Writers: []CallCase{w}, Prior: prior, Old: long},
								SameCase{Writers: []CallCase{w, {Enc: 7 - enc, Calls: d}, w}, Prior: prior, Old: long, Order: []int{0, 1, 2, 1, 0, 2, 2, 1, 0}, Threads: enc&1 == 1})
						}
					}
				}
			}
			return out
		},
		Exec: func(e *Env, c SameCase) error {
			e.Class("prior " + c.Prior)
			e.ClassIf(c.Threads && len(c.Writers) > 1, "concurrent writers")
			e.ClassIf(!c.Threads && len(c.Writers) > 1, "interleaved writers")
			pairs := false
			want := make([][]byte, len(c.Writers))
			for i, w := range c.Writers {
				for _, k := range w.Calls {
					pairs = pairs || k.Kind == "write" && k.Data.N() > 0
				}
				s := &stepper{c: w, path: e.Path()}
				if err := s.run(); err != nil {
					return fmt.Errorf("writer %d alone: %w", i, err)
				}
				want[i] = MustRead(s.path)
				if err := checkTime(want[i], s.t0, s.t1); err != nil {
					return fmt.Errorf("writer %d alone: %w", i, err)
				}
				s2 := &stepper{c: w, path: e.Path()}
				if err := s2.run(); err != nil {
					return fmt.Errorf("writer %d again: %w", i, err)
				}
				if err := sameFile(want[i], MustRead(s2.path)); err != nil {
					return fmt.Errorf("writer %d, same calls twice: %w", i, err)
				}
			}
			e.NonTrivial(pairs && (c.Prior != "none" || len(c.Writers) > 1))
			var ss []*stepper
			for i, w := range c.Writers {
				s := &stepper{c: w, path: e.Path()}
				switch c.Prior {
				case "garbage":
					Must(os.WriteFile(s.path, bytes.Repeat([]byte("VIBE_COL\xff\x00"), len(want[i])/7+100), 0o644))
				case "complete":
					if _, err := c.Old.Write(s.path); err != nil {
						return fmt.Errorf("prior file: %w", err)
					}
				case "same":
					Must(os.WriteFile(s.path, want[i], 0o644))
				}
				ss = append(ss, s)
			}
			if c.Threads {
				errs := make([]error, len(ss))
				var wg sync.WaitGroup
				gate := make(chan struct{})
				for i, s := range ss {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								errs[i] = fmt.Errorf("panic: %v", r)
							}
						}()
						<-gate
						errs[i] = s.run()
					}()
				}
				close(gate)
				wg.Wait()
				for i, err := range errs {
					if err != nil {
						return fmt.Errorf("writer %d among others: %w", i, err)
					}
				}
			} else {
				done := make([]bool, len(ss))
				left := len(ss)
				for k := 0; left > 0; k++ {
					i := k % len(ss)
					if k < len(c.Order) {
						i = c.Order[k] % len(ss)
					}
					if done[i] {
						continue
					}
					fin, err := ss[i].step()
					if err != nil {
						return fmt.Errorf("writer %d among others: %w", i, err)
					}
					if fin {
						done[i] = true
						left--
					}
				}
			}
			for i, s := range ss {
				got := MustRead(s.path)
				if err := sameFile(want[i], got); err != nil {
					return fmt.Errorf("writer %d alone and among others over prior contents (%s): %w", i, c.Prior, err)
				}
				if err := checkTime(got, s.t0, s.t1); err != nil {
					return fmt.Errorf("writer %d: %w", i, err)
				}
			}
			return nil
		},
	})
}

func checkTime(b []byte, t0, t1 int64) error {
	if len(b) < 44 {
		return fmt.Errorf("file of %d bytes", len(b))
	}
	ct := int64(binary.LittleEndian.Uint64(b[36:44]))
	if ct < t0 || ct > t1 {
		return fmt.Errorf("creation time %d outside %d..%d, when the file was made", ct, t0, t1)
	}
	return nil
}
