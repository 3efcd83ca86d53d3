package faults

import (
	"errors"
	"fmt"
	"os"

	. "vibeverif/core"
	"vibeverif/vos"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// History is a writer history: batches, then finalize and close.
type History struct {
	Simple bool    `json:"simple"`
	Enc    uint32  `json:"enc"`
	Target uint32  `json:"target"`
	Chunks []Chunk `json:"chunks"`
}

func (h History) n() int {
	n := 0
	for _, c := range h.Chunks {
		n += c.N()
	}
	return n
}

func (h History) options() []col.WriterOption {
	o := []col.WriterOption{col.WithEncoding(h.Enc)}
	if h.Target != 0 {
		o = append(o, col.WithBlockSize(h.Target))
	}
	return o
}

// genHistory draws a history of at most maxPairs pairs.
func genHistory(t *rapid.T, maxPairs int) History {
	h := History{Simple: rapid.Bool().Draw(t, "simple"), Enc: GenEnc(t), Target: rapid.SampledFrom([]uint32{0, 0, 4096, 1, 4100, 8192}).Draw(t, "target")}
	h.Chunks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Chunk { return GenChunk(t, Tiny, 3) }), 0, 5).Draw(t, "chunks")
	left := maxPairs
	if h.Target > 0 && h.Target < 4096 {
		left = min(left, 12)
	}
	for i := range h.Chunks {
		for j := range h.Chunks[i] {
			s := &h.Chunks[i][j]
			s.N = min(s.N, left)
			left = max(1, left-s.N)
		}
	}
	return h
}

// big simple writer histories flush blocks before close
func genFlushHistory(t *rapid.T) History {
	h := History{Simple: true, Enc: rapid.SampledFrom([]uint32{7, 4, 0}).Draw(t, "enc"), Target: rapid.SampledFrom([]uint32{0, 8192}).Draw(t, "target")}
	h.Chunks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Chunk {
		return Chunk{{N: rapid.SampledFrom([]int{3, 600, 999, 1001, 1100}).Draw(t, "n"), ID: rapid.Uint64Range(0, 5000).Draw(t, "id"), Step: rapid.Uint64Range(0, 3).Draw(t, "step"), V: 1, VStep: 1}}
	}), 1, 3).Draw(t, "chunks")
	return h
}

func smallHistories() []History {
	var out []History
	a := Chunk{{N: 3, ID: 7, Step: 2, V: -50, VStep: 33}}
	b := Chunk{{N: 2, ID: 1 << 33, Step: 70000, V: 1 << 50, VStep: -1}}
	for enc := uint32(0); enc < 8; enc++ {
		for _, simple := range []bool{false, true} {
			out = append(out, History{Simple: simple, Enc: enc}, History{Simple: simple, Enc: enc, Chunks: []Chunk{a}}, History{Simple: simple, Enc: enc, Chunks: []Chunk{a, b}},
				History{Simple: simple, Enc: enc, Target: 1, Chunks: []Chunk{a, b, a}})
		}
	}
	return out
}

// writerAPI is what the two writers have in common.
type writerAPI struct {
	write  func(Pairs) (accepted []Pairs, err error)
	finish func() error
	close  func() error
	total  func() uint64
}

func openWriter(h History, path string) (*writerAPI, error) {
	if h.Simple {
		w, err := col.NewSimpleWriter(path, h.options()...)
		if err != nil {
			return nil, err
		}
		return &writerAPI{
			write: func(p Pairs) ([]Pairs, error) {
				if err := w.Write(p.IDs, p.Vals); err != nil {
					return nil, err
				}
				return []Pairs{p}, nil
			},
			finish: w.Close, close: w.Close, total: w.TotalItems,
		}, nil
	}
	w, err := col.NewWriter(path, h.options()...)
	if err != nil {
		return nil, err
	}
	return &writerAPI{write: func(p Pairs) ([]Pairs, error) { return WriteAll(w, p) }, finish: w.FinalizeAndClose, close: w.Close}, nil
}

// runHistory makes the whole file without faults.
func runHistory(h History, path string) ([]Pairs, error) {
	w, err := openWriter(h, path)
	if err != nil {
		return nil, err
	}
	var all []Pairs
	for i, c := range h.Chunks {
		p := c.Expand()
		if p.Len() == 0 {
			continue
		}
		b, err := w.write(p)
		if err != nil {
			w.close()
			return nil, fmt.Errorf("chunk %d: %w", i, err)
		}
		all = append(all, b...)
	}
	if err := w.finish(); err != nil {
		return nil, fmt.Errorf("finish: %w", err)
	}
	return all, nil
}

// holds checks that an open file answers every query exactly from want. For
// the block writer the order of the pairs counts too.
func holds(r *col.Reader, want []Pairs, ordered bool) error {
	got, err := ReadBlocks(r)
	if err != nil {
		return err
	}
	w, g := Flatten(want), Flatten(got)
	if ordered {
		err = SamePairs(w, g)
	} else {
		err = SameMultiset(w, g)
	}
	if err != nil {
		return err
	}
	for _, skip := range []bool{false, true} {
		if err := SameAgg(Agg(w), r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: skip})); err != nil {
			return err
		}
	}
	b, err := r.GetGlobalIDBitmap()
	if err != nil {
		return fmt.Errorf("id bitmap: %w", err)
	}
	return SameBitmap(w.IDSet(), b)
}

// checkOpenFile opens a file and checks what it holds.
func checkOpenFile(path string, want []Pairs, ordered bool) error {
	r, err := col.NewReader(path)
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	defer r.Close()
	return holds(r, want, ordered)
}

func none() { vos.Reset(nil, nil) }

func removeIf(path string) {
	if err := os.Remove(path); err != nil && !errors.Is(err, os.ErrNotExist) {
		Must(err)
	}
}
