package core

import (
	"errors"
	"fmt"
	"math"
	"os"
	"sort"

	"github.com/weaviate/sroar"
	"vibe-lsm/pkg/col"
)

// Options of the spec for the writer.
func (f FileSpec) Options() []col.WriterOption {
	o := []col.WriterOption{col.WithEncoding(f.Enc)}
	if f.Target != 0 || f.Zero {
		o = append(o, col.WithBlockSize(f.Target))
	}
	return o
}

// EffTarget is the size target in force.
func (f FileSpec) EffTarget() uint32 {
	if f.Target == 0 && !f.Zero {
		return 16384
	}
	return f.Target
}

// WriteAll offers the pairs to the writer, resubmitting the tail while blocks
// are full, and returns the blocks as the writer reported them.
func WriteAll(w *col.Writer, p Pairs) ([]Pairs, error) {
	fulls := 0
	return writeAll(w, p, 0, &fulls)
}

// writeAll hands out a copy of the pairs, which must come back unchanged and
// is then scrambled, so that a writer that keeps it gives itself away.
func writeAll(w *col.Writer, p Pairs, drop uint8, fulls *int) ([]Pairs, error) {
	var blocks []Pairs
	q := p.Clone()
	defer q.Scramble()
	for p.Len() > 0 {
		err := w.WriteBlock(q.IDs, q.Vals)
		if serr := SamePairs(p, q); serr != nil {
			return blocks, fmt.Errorf("caller's slices modified: %w", serr)
		}
		if err == nil {
			return append(blocks, p), nil
		}
		var full *col.BlockFullError
		if !errors.As(err, &full) {
			return blocks, fmt.Errorf("write block of %d pairs: %w", p.Len(), err)
		}
		n := full.ItemsWritten
		if n < 1 || n >= p.Len() {
			return blocks, fmt.Errorf("block full error reports %d of %d pairs written", n, p.Len())
		}
		blocks = append(blocks, p.Slice(0, n))
		q.Slice(0, n).Scramble()
		p, q = p.Slice(n, p.Len()), q.Slice(n, q.Len())
		*fulls++
		if drop&(1<<((*fulls-1)%8)) != 0 {
			break
		}
	}
	return blocks, nil
}

// Scramble overwrites the pairs in place.
func (p Pairs) Scramble() {
	for i := range p.IDs {
		p.IDs[i], p.Vals[i] = ^p.IDs[i], ^p.Vals[i]
	}
}

// Write makes the file and returns its blocks.
func (f FileSpec) Write(path string) ([]Pairs, error) {
	if l := f.Layout; l != nil {
		blocks := f.Calls()
		Must(os.WriteFile(path, Build(blocks, BuildOpts{Enc: f.Enc, Target: f.EffTarget(), Created: 1, BitmapFirst: l.BitmapFirst, NoBitmap: l.NoBitmap,
			FooterSkip: l.FooterSkip, Layouts: l.Blocks, Reverse: l.Reverse}), 0o644))
		return blocks, nil
	}
	w, err := col.NewWriter(path, f.Options()...)
	if err != nil {
		return nil, fmt.Errorf("new writer: %w", err)
	}
	var blocks []Pairs
	fulls := 0
	for _, p := range f.Calls() {
		b, err := writeAll(w, p, f.Drop, &fulls)
		if err != nil {
			w.Close()
			return nil, err
		}
		blocks = append(blocks, b...)
	}
	if err := w.FinalizeAndClose(); err != nil {
		w.Close()
		return nil, fmt.Errorf("finalize: %w", err)
	}
	return blocks, nil
}

// Flatten concatenates blocks.
func Flatten(blocks []Pairs) Pairs {
	var p Pairs
	for _, b := range blocks {
		p.Append(b)
	}
	return p
}

// SamePairs compares two pair sequences.
func SamePairs(want, got Pairs) error {
	if len(got.IDs) != len(got.Vals) {
		return fmt.Errorf("%d ids but %d values returned", len(got.IDs), len(got.Vals))
	}
	if want.Len() != got.Len() {
		return fmt.Errorf("%d pairs returned, want %d", got.Len(), want.Len())
	}
	for i := range want.IDs {
		if want.IDs[i] != got.IDs[i] || want.Vals[i] != got.Vals[i] {
			return fmt.Errorf("pair %d is (%d,%d), want (%d,%d)", i, got.IDs[i], got.Vals[i], want.IDs[i], want.Vals[i])
		}
	}
	return nil
}

// Sorted returns the pairs ordered by id, then value.
func (p Pairs) Sorted() Pairs {
	q := p.Clone()
	sort.Sort(byIDVal{&q})
	return q
}

type byIDVal struct{ *Pairs }

func (s byIDVal) Less(i, j int) bool {
	if s.IDs[i] != s.IDs[j] {
		return s.IDs[i] < s.IDs[j]
	}
	return s.Vals[i] < s.Vals[j]
}
func (s byIDVal) Swap(i, j int) {
	s.IDs[i], s.IDs[j] = s.IDs[j], s.IDs[i]
	s.Vals[i], s.Vals[j] = s.Vals[j], s.Vals[i]
}

// SameMultiset compares two pair collections regardless of order.
func SameMultiset(want, got Pairs) error {
	if len(got.IDs) != len(got.Vals) {
		return fmt.Errorf("%d ids but %d values", len(got.IDs), len(got.Vals))
	}
	if err := SamePairs(want.Sorted(), got.Sorted()); err != nil {
		return fmt.Errorf("as multisets ordered by id and value: %w", err)
	}
	return nil
}

// ReadBlocks reads every block of an open file.
func ReadBlocks(r *col.Reader) ([]Pairs, error) {
	var out []Pairs
	n := r.BlockCount()
	for i := uint64(0); i < n; i++ {
		ids, vals, err := r.GetPairs(i)
		if err != nil {
			return nil, fmt.Errorf("read block %d of %d: %w", i, n, err)
		}
		out = append(out, Pairs{ids, vals})
	}
	return out, nil
}

// SameBlocks compares block lists.
func SameBlocks(want, got []Pairs) error {
	if len(want) != len(got) {
		return fmt.Errorf("%d blocks, want %d", len(got), len(want))
	}
	for i := range want {
		if err := SamePairs(want[i], got[i]); err != nil {
			return fmt.Errorf("block %d: %w", i, err)
		}
	}
	return nil
}

// CheckFileHolds opens the file and compares its blocks.
func CheckFileHolds(path string, want []Pairs) error {
	r, err := col.NewReader(path)
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	defer r.Close()
	got, err := ReadBlocks(r)
	if err != nil {
		return err
	}
	return SameBlocks(want, got)
}

// Agg is the model of an aggregation.
func Agg(p Pairs) col.AggregateResult {
	var a col.AggregateResult
	for i, v := range p.Vals {
		if i == 0 || v < a.Min {
			a.Min = v
		}
		if i == 0 || v > a.Max {
			a.Max = v
		}
		a.Sum += v
		a.Count++
	}
	if a.Count > 0 {
		a.Avg = float64(a.Sum) / float64(a.Count)
	}
	return a
}

// SameAgg compares aggregation results; averages up to rounding.
func SameAgg(want, got col.AggregateResult) error {
	if want.Count != got.Count || want.Min != got.Min || want.Max != got.Max || want.Sum != got.Sum {
		return fmt.Errorf("aggregate %+v, want %+v", got, want)
	}
	if d := math.Abs(want.Avg - got.Avg); !(d <= 1e-12*math.Abs(want.Avg)) {
		return fmt.Errorf("average %v, want %v (%+v)", got.Avg, want.Avg, want)
	}
	return nil
}

// Filter describes a bitmap given to an aggregation.
type Filter struct {
	Nil  bool     `json:"nil,omitempty"`
	IDs  []uint64 `json:"ids,omitempty"`
	From uint64   `json:"from,omitempty"` // plus a dense range From..From+Len-1
	Len  int      `json:"len,omitempty"`
	Via  string   `json:"via,omitempty"` // how the bitmap comes about: set, or as below
}

// Set is the model of the bitmap.
func (f Filter) Set() map[uint64]bool {
	if f.Nil {
		return nil
	}
	m := map[uint64]bool{}
	for _, id := range f.IDs {
		m[id] = true
	}
	for i := 0; i < f.Len; i++ {
		m[f.From+uint64(i)] = true
	}
	return m
}

// Bitmap builds the bitmap.
func (f Filter) Bitmap() *sroar.Bitmap {
	if f.Nil {
		return nil
	}
	b := sroar.NewBitmap()
	switch f.Via {
	case "sorted":
		b = sroar.FromSortedList(f.sorted())
	case "removed": // more ids first, also in containers left empty
		extra := f.extra()
		for i, id := range extra {
			if i%2 == 0 {
				b.Set(id)
			}
		}
		f.fill(b)
		for i, id := range extra {
			if i%2 == 1 {
				b.Set(id)
			}
		}
		for _, id := range extra {
			b.Remove(id)
		}
	case "andnot":
		f.fill(b)
		d := sroar.NewBitmap()
		for _, id := range f.extra() {
			b.Set(id)
			d.Set(id)
		}
		b.AndNot(d)
	case "or":
		c := sroar.NewBitmap()
		for i, id := range f.sorted() {
			if i%2 == 0 {
				b.Set(id)
			} else {
				c.Set(id)
			}
		}
		b.Or(c)
	case "clone":
		f.fill(b)
		b = b.Clone()
	case "buffer":
		f.fill(b)
		b = sroar.FromBuffer(b.ToBufferWithCopy())
	default:
		f.fill(b)
	}
	return b
}

func (f Filter) fill(b *sroar.Bitmap) {
	for _, id := range f.IDs {
		b.Set(id)
	}
	for i := 0; i < f.Len; i++ {
		b.Set(f.From + uint64(i))
	}
}

// Sibling is a filter with as many ids, the same smallest and the same
// largest, but one other in between, if there is any room for that.
func (f Filter) Sibling(ids []uint64, pick int) Filter {
	l := f.sorted()
	if f.Nil || len(l) < 3 || len(l) > 1000 {
		return f
	}
	set := f.Set()
	lo, hi := l[0], l[len(l)-1]
	k := 1 + pick%(len(l)-2)
	near := []uint64{l[k] + 1, l[k] - 1}
	for i := range ids {
		near = append(near, ids[(i+pick)%len(ids)])
		if i > 100 {
			break
		}
	}
	for i := len(near) - 1; i >= 0; i-- {
		if id := near[i]; id > lo && id < hi && !set[id] {
			l[k] = id
			return Filter{IDs: l}
		}
	}
	return f
}

func (f Filter) sorted() []uint64 {
	l := make([]uint64, 0, len(f.IDs)+f.Len)
	for id := range f.Set() {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// extra lists ids outside the filter: beside its ids and in other containers.
func (f Filter) extra() []uint64 {
	set := f.Set()
	var out []uint64
	add := func(id uint64) {
		if !set[id] {
			set[id] = true
			out = append(out, id)
		}
	}
	add(0)
	add(math.MaxUint64)
	for i, id := range append(f.IDs[:min(20, len(f.IDs)):min(20, len(f.IDs))], f.From, f.From+uint64(f.Len)) {
		add(id + 1)
		add(id - 1)
		add(id + 65536)
		add(id - 65536)
		if i < 2 {
			for k := uint64(0); k < 40; k++ {
				add(id + 3*65536 + k)
			}
		}
	}
	return out
}

// SameBitmap compares a bitmap with its model.
func SameBitmap(want map[uint64]bool, b *sroar.Bitmap) error {
	if b == nil {
		return fmt.Errorf("no bitmap returned")
	}
	got := b.ToArray()
	if len(got) != len(want) {
		return fmt.Errorf("bitmap holds %d ids, want %d", len(got), len(want))
	}
	for _, id := range got {
		if !want[id] {
			return fmt.Errorf("bitmap holds %d, which it should not", id)
		}
	}
	return nil
}

// IDSet is the set of ids of the pairs.
func (p Pairs) IDSet() map[uint64]bool {
	m := map[uint64]bool{}
	for _, id := range p.IDs {
		m[id] = true
	}
	return m
}

// Select returns the pairs whose id passes both filters.
func (p Pairs) Select(allow, deny map[uint64]bool) Pairs {
	var q Pairs
	for i, id := range p.IDs {
		if allow != nil && !allow[id] {
			continue
		}
		if deny != nil && deny[id] {
			continue
		}
		q.Add(id, p.Vals[i])
	}
	return q
}

// TargetOK says whether the format can express a size target.
func TargetOK(target int) bool { return target >= 0 && target <= math.MaxUint32 }
