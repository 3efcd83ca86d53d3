package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"os"
	"testing"

	. "vibeverif/core"

	"github.com/weaviate/sroar"
	"vibe-lsm/pkg/col"
)

// ManyCase is a file of so many blocks of one pair each: at 4 KB a block,
// 2^20 of them pass 4 GB.
type ManyCase struct {
	Blocks int    `json:"blocks"`
	Enc    uint32 `json:"enc"`
	Step   uint64 `json:"step"`
	VStep  int64  `json:"vstep"`
}

func (c ManyCase) pair(i int) (uint64, int64) {
	return uint64(i%5000) * c.Step, math.MinInt64/2 + int64(i)*c.VStep
}

func TestC01Large(t *testing.T) {
	Run(t, Prop[ManyCase]{
		ID: "C01", Part: "large",
		Rule:  "a case is a file of more than 4 GB made of blocks of one pair; non-trivial = more than 2^20 blocks",
		Fixed: func() []ManyCase { return []ManyCase{{Blocks: 1<<20 + 300, Enc: 0, Step: 70001, VStep: 0x123456789}} },
		Exec: func(e *Env, c ManyCase) error {
			path := e.Path()
			w, err := col.NewWriter(path, col.WithEncoding(c.Enc), col.WithBlockSize(1))
			if err != nil {
				return fmt.Errorf("new writer: %w", err)
			}
			defer w.Close()
			for i := 0; i < c.Blocks; i++ {
				id, v := c.pair(i)
				if err := w.WriteBlock([]uint64{id}, []int64{v}); err != nil {
					return fmt.Errorf("block %d: %w", i, err)
				}
				if i%100000 == 0 {
					e.Progress()
				}
			}
			if err := w.FinalizeAndClose(); err != nil {
				return fmt.Errorf("finalize: %w", err)
			}
			e.Progress()
			e.NonTrivial(c.Blocks > 1<<20)
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			if r.BlockCount() != uint64(c.Blocks) {
				return fmt.Errorf("%d blocks in the file, %d written", r.BlockCount(), c.Blocks)
			}
			for i := 0; i < c.Blocks; i++ {
				ids, vals, err := r.GetPairs(uint64(i))
				if err != nil {
					return fmt.Errorf("block %d: %w", i, err)
				}
				id, v := c.pair(i)
				if len(ids) != 1 || len(vals) != 1 || ids[0] != id || vals[0] != v {
					return fmt.Errorf("block %d holds %v %v, want %d %d", i, ids, vals, id, v)
				}
			}
			return nil
		},
	})
}

// HugeCase is a single write of so many equal pairs.
type HugeCase struct {
	Shift  int    `json:"shift"` // 2^Shift + Extra pairs
	Extra  int    `json:"extra"`
	Enc    uint32 `json:"enc"`
	Target uint32 `json:"target"`
}

func TestC13Large(t *testing.T) {
	Run(t, Prop[HugeCase]{
		ID: "C13", Part: "large",
		Rule: "a case is an estimate and a write of so many pairs (all zero) that the block would take more than 4 GB; non-trivial = it would",
		Fixed: func() []HugeCase {
			out := []HugeCase{{Shift: 28, Target: 16384}}
			if Thorough() {
				out = append(out, HugeCase{Shift: 29, Target: 16384}, HugeCase{Shift: 28, Extra: -5, Target: 4096, Enc: 3}, HugeCase{Shift: 28, Extra: 300, Target: 4096, Enc: 1})
			}
			return out
		},
		Exec: func(e *Env, c HugeCase) error {
			path := e.Path()
			w, err := col.NewWriter(path, col.WithEncoding(c.Enc), col.WithBlockSize(c.Target))
			if err != nil {
				return fmt.Errorf("new writer: %w", err)
			}
			defer w.Close()
			n := 1<<c.Shift + c.Extra
			// never written to, so they take no memory
			ids, vals := make([]uint64, n), make([]int64, n)
			size := func(k int) uint64 {
				id, val := uint64(8*k), uint64(8*k)
				switch c.Enc {
				case 4, 7:
					id, val = uint64(k), uint64(k)
				case 5:
					id = uint64(k)
				case 6:
					val = uint64(k)
				}
				end := HeaderLen + 80 + id + val
				return (end+4095)/4096*4096 - HeaderLen
			}
			e.NonTrivial(size(n) > math.MaxUint32)
			est, err := w.EstimateBlockSize(ids, vals)
			e.Progress()
			if err == nil && est != size(n) {
				return fmt.Errorf("estimate for %d pairs is %d, true size %d", n, est, size(n))
			}
			want := 1
			for size(want+1) <= uint64(c.Target) {
				want++
			}
			err = w.WriteBlock(ids, vals)
			e.Progress()
			var full *col.BlockFullError
			if !errors.As(err, &full) {
				return fmt.Errorf("write of %d pairs: %v", n, err)
			}
			if full.ItemsWritten != want {
				return fmt.Errorf("block full after %d pairs, longest fitting prefix is %d", full.ItemsWritten, want)
			}
			if err := w.FinalizeAndClose(); err != nil {
				return fmt.Errorf("finalize: %w", err)
			}
			return CheckFileHolds(path, []Pairs{{ids[:want], vals[:want]}})
		},
	})
}

// ManyBlocksCase is a file whose index alone takes more than 4 GB: 56 bytes for
// each of its blocks of one pair, 96 bytes each. Only some blocks are filled.
type ManyBlocksCase struct {
	Extra int `json:"extra"` // blocks beyond 2^32/56
}

func TestC05Large(t *testing.T) {
	Run(t, Prop[ManyBlocksCase]{
		ID: "C05", Part: "large",
		Rule:  "a case is a file of so many blocks that its index takes more than 4 GB; non-trivial = it does",
		Fixed: func() []ManyBlocksCase { return []ManyBlocksCase{{Extra: 700}} },
		Exec: func(e *Env, c ManyBlocksCase) error {
			n := 1<<32/EntryLen + c.Extra
			e.NonTrivial(uint64(n)*EntryLen > math.MaxUint32)
			one := func(i int) Pairs { return Pairs{[]uint64{uint64(i)}, []int64{int64(i % 1000)}} }
			const size = 96
			// header and blocks as they are in a file of one block
			small := Build([]Pairs{one(0)}, BuildOpts{NoBitmap: true, Target: 4096})
			le := binary.LittleEndian
			le.PutUint64(small[16:], uint64(n))
			path := e.Path()
			f, err := os.Create(path)
			if err != nil {
				return fmt.Errorf("environment: %w", err)
			}
			defer f.Close()
			put := func(off int64, data []byte) {
				if err == nil {
					_, err = f.WriteAt(data, off)
				}
			}
			put(0, small[:HeaderLen])
			probes := []int{0, 1, 7, 639, 640, n / 2, n - c.Extra - 1, n - c.Extra, n - c.Extra + 1, n - 2, n - 1}
			for _, i := range probes {
				b := Build([]Pairs{one(i)}, BuildOpts{NoBitmap: true})
				put(HeaderLen+size*int64(i), b[HeaderLen:HeaderLen+size])
			}
			off := HeaderLen + size*int64(n)
			buf := le.AppendUint32(nil, uint32(n))
			var want col.AggregateResult
			for i := 0; i < n; i++ {
				v := int64(i % 1000)
				buf = le.AppendUint64(buf, HeaderLen+size*uint64(i))
				buf = le.AppendUint32(buf, size)
				buf = le.AppendUint64(buf, uint64(i))
				buf = le.AppendUint64(buf, uint64(i))
				buf = le.AppendUint64(buf, uint64(v))
				buf = le.AppendUint64(buf, uint64(v))
				buf = le.AppendUint64(buf, uint64(v))
				buf = le.AppendUint32(buf, 1)
				want.Sum += v
				want.Count++
				if len(buf) > 1<<20 || i == n-1 {
					put(off, buf)
					off += int64(len(buf))
					buf = buf[:0]
				}
			}
			want.Max = 999
			buf = le.AppendUint64(buf, 4+EntryLen*uint64(n))
			buf = le.AppendUint64(buf, 0)
			put(off, le.AppendUint64(buf, Magic))
			if err != nil {
				return fmt.Errorf("environment: %w", err)
			}
			e.Progress()
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			e.Progress()
			if r.BlockCount() != uint64(n) {
				return fmt.Errorf("%d blocks, the file has %d", r.BlockCount(), n)
			}
			for _, i := range probes {
				ids, vals, err := r.GetPairs(uint64(i))
				if err != nil {
					return fmt.Errorf("block %d of %d: %w", i, n, err)
				}
				if p := one(i); len(ids) != 1 || len(vals) != 1 || ids[0] != p.IDs[0] || vals[0] != p.Vals[0] {
					return fmt.Errorf("block %d of %d holds %v %v, want %v", i, n, ids, vals, p)
				}
				allow := sroar.NewBitmap()
				allow.Set(uint64(i))
				if got := r.FilteredBlockIterator(allow, nil); len(got) != 1 || got[0] != uint64(i) {
					return fmt.Errorf("candidates for id %d are blocks %v", i, got[:min(len(got), 5)])
				}
			}
			e.Progress()
			got := r.Aggregate()
			if int64(got.Count) != int64(want.Count) || got.Min != want.Min || got.Max != want.Max || got.Sum != want.Sum {
				return fmt.Errorf("aggregate %+v, want %+v", got, want)
			}
			return nil
		},
	})
}

// SetCase is a file of so many scattered ids that its id bitmap takes more
// than 4 GB. A container of the real bitmap takes 128 bytes, and 30 million of
// them an hour; this part is built with one whose containers start at 4 KB.
type SetCase struct {
	IDs   int    `json:"ids"`
	Shift int    `json:"shift"`
	Block int    `json:"block"` // ids by block
	Enc   uint32 `json:"enc"`
}

func TestC10Huge(t *testing.T) {
	Run(t, Prop[SetCase]{
		ID: "C10", Part: "huge",
		Rule:  "a case is a file whose id bitmap takes more than 4 GB (with larger containers than usual): finalizing it fails, or the bitmap reads back; non-trivial = that many ids accepted",
		Fixed: func() []SetCase { return []SetCase{{IDs: 1<<20 + 1000, Shift: 17, Block: 1 << 16, Enc: 7}} },
		Exec: func(e *Env, c SetCase) error {
			path := e.Path()
			w, err := col.NewWriter(path, col.WithEncoding(c.Enc), col.WithBlockSize(math.MaxUint32))
			if err != nil {
				return fmt.Errorf("new writer: %w", err)
			}
			defer w.Close()
			for i := 0; i < c.IDs; {
				var p Pairs
				for ; i < c.IDs && len(p.IDs) < c.Block; i++ {
					p.IDs, p.Vals = append(p.IDs, uint64(i)<<c.Shift), append(p.Vals, int64(i))
				}
				if err := w.WriteBlock(p.IDs, p.Vals); err != nil {
					return fmt.Errorf("write up to pair %d: %w", i, err)
				}
				e.Progress()
			}
			e.NonTrivial(c.IDs > 1<<20)
			if err := w.Finalize(); err != nil {
				e.Class("refused")
				return nil
			}
			e.Progress()
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			b, err := r.GetGlobalIDBitmap()
			if err != nil {
				return fmt.Errorf("finalized without error, but the id bitmap of %d ids cannot be read: %w", c.IDs, err)
			}
			if n := b.GetCardinality(); n != c.IDs {
				return fmt.Errorf("finalized without error, but the id bitmap holds %d of %d ids", n, c.IDs)
			}
			return nil
		},
	})
}

// ManyPairsCase is a file of more than 2^32 pairs: blocks of id 0 and value 0
// only, a byte each, between blocks of one pair.
type ManyPairsCase struct {
	Zero  int   `json:"zero"`  // blocks of 2^30 pairs
	Value int64 `json:"value"` // of the pairs between
}

func TestC06Large(t *testing.T) {
	Run(t, Prop[ManyPairsCase]{
		ID: "C06", Part: "large",
		Rule: "a case is a file of more than 2^32 pairs, aggregated from its metadata; non-trivial = it has as many",
		Fixed: func() []ManyPairsCase {
			return []ManyPairsCase{{Zero: 5, Value: 1000}, {Zero: 2, Value: -7}, {Zero: 4, Value: math.MinInt64}, {Zero: 9, Value: math.MaxInt64}}
		},
		Exec: func(e *Env, c ManyPairsCase) error {
			const count = 1 << 30
			le := binary.LittleEndian
			path := e.Path()
			f, err := os.Create(path)
			if err != nil {
				return fmt.Errorf("environment: %w", err)
			}
			defer f.Close()
			put := func(off int64, data []byte) {
				if err == nil {
					_, err = f.WriteAt(data, off)
				}
			}
			off := int64(HeaderLen)
			n := 2*c.Zero + 1
			index := le.AppendUint32(nil, uint32(n))
			var want col.AggregateResult
			for i := 0; i < n; i++ {
				ids, vals := []uint64{uint64(i)}, []int64{c.Value}
				k, size := uint32(1), int64(0)
				if i%2 == 1 {
					ids, vals, k = []uint64{0}, []int64{0}, count
					layout := make([]byte, 16)
					for o, v := range []uint32{0, count, count, count} {
						le.PutUint32(layout[4*o:], v)
					}
					head := make([]byte, 64)
					le.PutUint32(head[40:], count)
					le.PutUint32(head[44:], col.EncodingVarInt)
					put(off, head)
					put(off+64, layout)
					size = 64 + 16 + 2*count
				} else {
					small := Build([]Pairs{{ids, vals}}, BuildOpts{Enc: col.EncodingVarInt})
					pf, perr := Parse(small)
					if perr != nil {
						return fmt.Errorf("environment: %w", perr)
					}
					b := pf.Blocks[0]
					put(off, small[b.Offset:b.Offset+b.Size])
					size = int64(b.Size)
				}
				index = le.AppendUint64(index, uint64(off))
				index = le.AppendUint32(index, uint32(size))
				index = le.AppendUint64(index, ids[0])
				index = le.AppendUint64(index, ids[0])
				index = le.AppendUint64(index, ToSignMag(vals[0]))
				index = le.AppendUint64(index, ToSignMag(vals[0]))
				index = le.AppendUint64(index, ToSignMag(vals[0]))
				index = le.AppendUint32(index, k)
				off += size
				want.Count += int(k)
				want.Sum += vals[0]
			}
			want.Min, want.Max = min(0, c.Value), max(0, c.Value)
			want.Avg = float64(want.Sum) / float64(want.Count)
			put(off, index)
			tail := le.AppendUint64(nil, uint64(len(index)))
			tail = le.AppendUint64(tail, 0)
			put(off+int64(len(index)), le.AppendUint64(tail, Magic))
			head := Build(nil, BuildOpts{NoBitmap: true, Enc: col.EncodingVarInt, Target: math.MaxUint32})[:HeaderLen]
			le.PutUint64(head[16:], uint64(n))
			put(0, head)
			if err != nil {
				return fmt.Errorf("environment: %w", err)
			}
			e.NonTrivial(want.Count > math.MaxUint32)
			e.Progress()
			r, err := openReader(path)
			if err != nil {
				return err
			}
			defer r.Close()
			if ids, vals, err := r.GetPairs(uint64(n - 1)); err != nil || len(ids) != 1 || len(vals) != 1 || ids[0] != uint64(n-1) || vals[0] != c.Value {
				return fmt.Errorf("block %d holds %v %v, want %d %d: %v", n-1, ids, vals, n-1, c.Value, err)
			}
			for _, p := range []int{0, 1, 2, 3, -1, n, 1 << 20} {
				if got := r.AggregateWithOptions(col.AggregateOptions{Parallel: p}); got != want {
					return fmt.Errorf("aggregate with %d workers %+v, want %+v", p, got, want)
				}
			}
			// blocks without id 0 are small, and the others need not be read
			allow := sroar.NewBitmap()
			for i := 1; i < n; i++ {
				allow.Set(uint64(i))
			}
			small := int64(c.Zero) // the first one has id 0 as well
			got := r.AggregateWithOptions(col.AggregateOptions{Filter: allow})
			if int64(got.Count) != small || got.Min != c.Value || got.Max != c.Value || got.Sum != small*c.Value {
				return fmt.Errorf("filtered aggregate %+v, want %d times %d", got, small, c.Value)
			}
			return nil
		},
	})
}
