package faults

import (
	"errors"
	"fmt"
	"testing"

	. "vibeverif/core"
	"vibeverif/vos"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// WFault is a kind of write-side fault; it is tried at every operation.
type WFault struct {
	Short   int    `json:"short,omitempty"`   // bytes of a failing write that still arrive: n, or -n from the end, 1<<20 = half
	Lasting string `json:"lasting,omitempty"` // "" once, "all" every later operation too, "write" every later write, "pair" once more later
	Gap     int    `json:"gap,omitempty"`     // distance of the second fault of a pair
	Policy  string `json:"policy"`            // after an error: stop, retry, skip
	Final   int    `json:"final"`             // finalization attempts
}

// WFaultCase is a history and the faults it meets.
type WFaultCase struct {
	Hist   History  `json:"hist"`
	Faults []WFault `json:"faults"`
	Stride int      `json:"stride"` // every Stride-th operation is a fault position (from 0)
}

func allWFaults() []WFault {
	var out []WFault
	for _, pol := range []string{"stop", "retry", "skip"} {
		for _, short := range []int{0, 1, 1 << 20, -1, -1 << 20} {
			out = append(out, WFault{Short: short, Policy: pol, Final: 3})
		}
		out = append(out, WFault{Lasting: "all", Policy: pol, Final: 2}, WFault{Lasting: "write", Policy: pol, Final: 2, Short: 1})
	}
	return out
}

func genWFault(t *rapid.T) WFault {
	return WFault{
		Short:   rapid.SampledFrom([]int{0, 0, 1, 2, 1 << 20, -1, -1 << 20}).Draw(t, "short"),
		Lasting: rapid.SampledFrom([]string{"", "", "", "all", "write", "pair", "pair"}).Draw(t, "lasting"),
		Gap:     rapid.IntRange(1, 40).Draw(t, "gap"),
		Policy:  rapid.SampledFrom([]string{"stop", "retry", "skip"}).Draw(t, "policy"),
		Final:   rapid.IntRange(1, 3).Draw(t, "final"),
	}
}

// shortOf turns the description into a number of bytes.
func shortOf(s, n int) int {
	switch {
	case s == 1<<20:
		return n / 2
	case s == -1<<20:
		return n // all of it arrives, and yet the call fails
	case s < 0:
		return max(0, n+s)
	}
	return min(s, n)
}

// outcome of a history run under faults.
type outcome struct {
	accepted []Pairs // in order
	maybe    []Pairs // of calls that failed and were not repeated
	finished bool    // some finalization reported success
	failures int     // calls that met a fault
}

// faultRun runs the history with the fault at operation k.
func faultRun(h History, path string, f WFault, k int) (o outcome, err error) {
	fired := 0
	vos.Reset(func(ev vos.Event) vos.Fault {
		hit := ev.Seq == k
		switch f.Lasting {
		case "all":
			hit = ev.Seq >= k
		case "write":
			hit = ev.Seq == k || ev.Seq > k && ev.Op == "write"
		case "pair":
			hit = ev.Seq == k || ev.Seq == k+f.Gap
		}
		if !hit {
			return vos.Fault{}
		}
		fired++
		return vos.Fault{Err: vos.ErrInjected, Short: shortOf(f.Short, len(ev.Data))}
	}, nil)
	defer none()

	// call runs one call of the code and checks that it reports faults it met
	call := func(what string, fn func() error) (error, error) {
		before := fired
		err := fn()
		var full *col.BlockFullError
		if fired > before {
			o.failures++
			if err == nil {
				return err, fmt.Errorf("%s reported success although a file operation failed in it", what)
			}
			if errors.As(err, &full) {
				return err, fmt.Errorf("%s reported a full block (%v) although a file operation failed in it", what, err)
			}
		}
		return err, nil
	}
	var write func(Pairs) error
	var finish, closer func() error
	if h.Simple {
		var w *col.SimpleWriter
		cerr, bad := call("creating the file", func() (err error) { w, err = col.NewSimpleWriter(path, h.options()...); return })
		if bad != nil || cerr != nil {
			return o, bad
		}
		write = func(p Pairs) error { return w.Write(p.IDs, p.Vals) }
		finish, closer = w.Close, w.Close
	} else {
		var w *col.Writer
		cerr, bad := call("creating the file", func() (err error) { w, err = col.NewWriter(path, h.options()...); return })
		if bad != nil || cerr != nil {
			return o, bad
		}
		write = func(p Pairs) error { return w.WriteBlock(p.IDs, p.Vals) }
		finish, closer = w.FinalizeAndClose, w.Close
	}
	// never leave a descriptor behind
	defer func() {
		if o.finished {
			return
		}
		cerr, bad := call("close", closer)
		if bad != nil && err == nil {
			err = bad
		}
		if h.Simple && cerr == nil {
			o.finished = true
		}
	}()
	for i, c := range h.Chunks {
		p := c.Expand()
		for tries := 0; p.Len() > 0; {
			werr, bad := call(fmt.Sprintf("write %d", i), func() error { return write(p) })
			if bad != nil {
				return o, bad
			}
			n := p.Len()
			if full, ok := werr.(*col.BlockFullError); ok && !h.Simple {
				n = full.ItemsWritten
				if n < 1 || n > p.Len() {
					return o, fmt.Errorf("write %d: %d of %d pairs", i, n, p.Len())
				}
				werr = nil
			}
			if werr == nil {
				o.accepted = append(o.accepted, p.Slice(0, n))
				p = p.Slice(n, p.Len())
				continue
			}
			if f.Policy == "retry" && tries < 2 {
				tries++
				continue
			}
			o.maybe = append(o.maybe, p)
			break
		}
		if len(o.maybe) > 0 && f.Policy == "stop" {
			break
		}
	}
	for i := 0; i < f.Final && !o.finished; i++ {
		ferr, bad := call(fmt.Sprintf("finalization %d", i), finish)
		if bad != nil {
			return o, bad
		}
		o.finished = ferr == nil
	}
	return o, nil
}

// judge looks at the file left behind.
func (o outcome) judge(h History, path string) error {
	r, err := col.NewReader(path)
	if err != nil {
		if o.finished {
			return fmt.Errorf("finalization reported success but the file does not open: %w", err)
		}
		return nil
	}
	defer r.Close()
	want := o.accepted
	if len(o.maybe) > 0 {
		// pairs of failed calls that were not repeated may be there or not
		got, err := ReadBlocks(r)
		if err != nil {
			return err
		}
		left := map[[2]uint64]int{}
		g := Flatten(got)
		for i, id := range g.IDs {
			left[[2]uint64{id, uint64(g.Vals[i])}]++
		}
		w, m := Flatten(o.accepted), Flatten(o.maybe)
		for i, id := range w.IDs {
			k := [2]uint64{id, uint64(w.Vals[i])}
			if left[k]--; left[k] < 0 {
				return fmt.Errorf("accepted pair (%d,%d) is missing", id, w.Vals[i])
			}
		}
		for i, id := range m.IDs {
			k := [2]uint64{id, uint64(m.Vals[i])}
			if left[k] > 0 {
				left[k]--
			}
		}
		for k, n := range left {
			if n > 0 {
				return fmt.Errorf("pair (%d,%d) is there %d times too often", k[0], int64(k[1]), n)
			}
		}
		want = got // and the aggregates and the bitmap must fit
	}
	return holds(r, want, !h.Simple)
}

func TestC17(t *testing.T) {
	Run(t, Prop[WFaultCase]{
		ID:   "C17",
		Rule: "a case is a writer history and a list of fault kinds (error, partial write, lasting, twice; then stop, retry or skip and up to three finalizations), each tried at every file operation of the history (every Stride-th when there are very many); non-trivial = at least one pair and 30 faulty runs",
		Fixed: func() []WFaultCase {
			var out []WFaultCase
			for _, h := range smallHistories() {
				out = append(out, WFaultCase{h, allWFaults(), 1})
			}
			return out
		},
		Gen: func(t *rapid.T) WFaultCase {
			h := genHistory(t, 40)
			k := rapid.IntRange(0, 9).Draw(t, "kind")
			c := WFaultCase{Stride: rapid.IntRange(1, 3).Draw(t, "stride")}
			if k >= 8 {
				h = genFlushHistory(t)
				c.Stride = rapid.IntRange(40, 150).Draw(t, "stride")
			}
			c.Hist = h
			c.Faults = rapid.SliceOfN(rapid.Custom(genWFault), 1, 3).Draw(t, "faults")
			return c
		},
		Exec: func(e *Env, c WFaultCase) error {
			vos.Reset(nil, nil)
			path := e.Path()
			if _, err := runHistory(c.Hist, path); err != nil {
				return err
			}
			n := vos.Count()
			kinds := map[int]string{}
			vos.Reset(nil, func(ev vos.Event) { kinds[ev.Seq] = ev.Op })
			if _, err := runHistory(c.Hist, path); err != nil {
				return err
			}
			runs := 0
			for _, f := range c.Faults {
				for k := 0; k < n+2; k++ {
					// operations other than plain writes are always tried
					if c.Stride > 1 && k%c.Stride != 0 && kinds[k] == "write" && k > 15 && k < n-60 {
						continue
					}
					if c.Stride > 20 && k%7 != 0 && kinds[k] == "seek" && k > 40 && k < n-40 {
						continue
					}
					runs++
					e.Progress()
					removeIf(path)
					o, err := faultRun(c.Hist, path, f, k)
					if err == nil {
						err = o.judge(c.Hist, path)
					}
					if err != nil {
						return fmt.Errorf("fault %+v at operation %d of %d (%s): %w", f, k, n, kinds[k], err)
					}
					if o.finished {
						e.ClassIf(o.failures > 0, "finished after a fault")
					}
				}
			}
			e.ClassIf(c.Hist.Simple, "simple writer")
			for k := 0; k < runs; k += 100 {
				e.Class("hundreds of faulty runs")
			}
			e.NonTrivial(c.Hist.n() > 0 && runs >= 30)
			return nil
		},
	})
}
