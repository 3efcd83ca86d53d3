package faults

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	. "vibeverif/core"
	"vibeverif/vos"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// CrashCase is a history and what its file name held before.
type CrashCase struct {
	Hist  History  `json:"hist"`
	Prior string   `json:"prior"` // none, complete, same
	Old   FileSpec `json:"old"`
}

// cuts are the places inside a write at which the process may stop.
func cuts(n int) []int {
	if n <= 9 {
		out := make([]int, 0, n)
		for i := 1; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	m := map[int]bool{1: true, 2: true, 4: true, 7: true, 8: true, 12: true, n / 3: true, n / 2: true, n - 24: true, n - 8: true, n - 4: true, n - 1: true}
	var out []int
	for i := 1; i < n; i++ {
		if m[i] || i%1024 == 0 {
			out = append(out, i)
		}
	}
	return out
}

func TestC16(t *testing.T) {
	Run(t, Prop[CrashCase]{
		ID:   "C16",
		Rule: "a case is a writer history, over no, an older complete or an identical file; every file operation of it is a crash point, and so are cuts inside every write; each resulting image is opened and judged; non-trivial = at least one pair and 20 crash images",
		Fixed: func() []CrashCase {
			var out []CrashCase
			old := FileSpec{Enc: 3, Chunks: []Chunk{{{N: 300, ID: 1, Step: 1, V: 9, VStep: 1}}, {{N: 300, ID: 1000, Step: 1, V: 9, VStep: 1}}}}
			for _, h := range smallHistories() {
				for _, p := range []string{"none", "complete", "same"} {
					out = append(out, CrashCase{h, p, old})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) CrashCase {
			h := genHistory(t, 60)
			if rapid.IntRange(0, 19).Draw(t, "flush") == 19 {
				h = genFlushHistory(t)
			}
			return CrashCase{h, rapid.SampledFrom([]string{"none", "complete", "complete", "same"}).Draw(t, "prior"), GenSmallFile(t, 5)}
		},
		Exec: func(e *Env, c CrashCase) error {
			none()
			path := e.Path()
			var prior []byte
			switch c.Prior {
			case "complete":
				if _, err := c.Old.Write(path); err != nil {
					return fmt.Errorf("prior file: %w", err)
				}
				prior = MustRead(path)
			case "same":
				if _, err := runHistory(c.Hist, path); err != nil {
					return fmt.Errorf("prior file: %w", err)
				}
				prior = MustRead(path)
			}
			var log []vos.Event
			vos.Reset(nil, func(ev vos.Event) {
				switch ev.Op {
				case "create", "open", "write", "truncate", "rename", "remove", "link":
					ev.Data = append([]byte(nil), ev.Data...)
					log = append(log, ev)
				}
			})
			want, err := runHistory(c.Hist, path)
			none()
			if err != nil {
				return err
			}
			final := MustRead(path)
			images, opened := 0, 0
			// replay the operations on a copy, looking at it in between
			img := map[string]string{path: e.Path()}
			if prior != nil {
				Must(os.WriteFile(img[path], prior, 0o644))
			}
			name := func(p string) string {
				if img[p] == "" {
					img[p] = e.Path()
				}
				return img[p]
			}
			look := func(what string) error {
				images++
				e.Progress()
				r, err := col.NewReader(name(path))
				if err != nil {
					return nil
				}
				defer r.Close()
				opened++
				if prior != nil {
					if b := MustRead(name(path)); bytes.Equal(b, prior) {
						return nil // the older file, untouched
					}
				}
				if err := holds(r, want, !c.Hist.Simple); err != nil {
					return fmt.Errorf("stopped %s: the file opens but is not complete: %w", what, err)
				}
				return nil
			}
			for i, ev := range log {
				switch ev.Op {
				case "create", "open":
					f, err := os.OpenFile(name(ev.Path), os.O_RDWR|os.O_CREATE, 0o644)
					Must(err)
					if ev.Op == "create" {
						Must(f.Truncate(0))
					}
					Must(f.Close())
				case "truncate":
					Must(os.Truncate(name(ev.Path), ev.Off))
				case "rename":
					Must(os.Rename(name(ev.Path), name(ev.To)))
				case "link":
					Must(os.Link(name(ev.Path), name(ev.To)))
				case "remove":
					Must(os.Remove(name(ev.Path)))
				case "write":
					f, err := os.OpenFile(name(ev.Path), os.O_RDWR|os.O_CREATE, 0o644)
					Must(err)
					at := 0
					for _, k := range cuts(len(ev.Data)) {
						_, err := f.WriteAt(ev.Data[at:k], ev.Off+int64(at))
						Must(err)
						at = k
						if err := look(fmt.Sprintf("in write %d of %d (%d of %d bytes at %d)", i, len(log), k, len(ev.Data), ev.Off)); err != nil {
							f.Close()
							return err
						}
					}
					_, err = f.WriteAt(ev.Data[at:], ev.Off+int64(at))
					Must(err)
					Must(f.Close())
				}
				if err := look(fmt.Sprintf("after operation %d of %d (%s)", i, len(log), ev.Op)); err != nil {
					return err
				}
			}
			// the copy must have become the file, or operations were missed
			if b := MustRead(name(path)); !bytes.Equal(b, final) {
				return &EnvError{Err: fmt.Errorf("replaying the recorded operations gives %d bytes that differ from the file of %d bytes", len(b), len(final))}
			}
			if opened == 0 {
				return fmt.Errorf("the complete file does not open")
			}
			e.Class("prior " + c.Prior)
			e.ClassIf(c.Hist.Simple, "simple writer")
			for k := 0; k < images; k += 100 {
				e.Class("hundreds of crash images")
			}
			e.NonTrivial(len(Flatten(want).IDs) > 0 && images >= 20)
			return nil
		},
	})
}

func TestC20(t *testing.T) {
	Run(t, Prop[History]{
		ID:    "C20",
		Rule:  "a case is a writer history; after each call that reports success (or a full block) no byte written to the file may be waiting for a sync; non-trivial = at least one block written",
		Fixed: smallHistories,
		Gen: func(t *rapid.T) History {
			if rapid.IntRange(0, 9).Draw(t, "flush") == 9 {
				return genFlushHistory(t)
			}
			return genHistory(t, 80)
		},
		Exec: func(e *Env, h History) error {
			none()
			dirty := map[string]int{}
			syncs := 0
			blind := false
			vos.Reset(nil, func(ev vos.Event) {
				switch ev.Op {
				case "write", "truncate":
					if !ev.Sync {
						dirty[ev.Path]++
					}
				case "sync":
					dirty[ev.Path] = 0
					syncs++
				case "rename":
					dirty[ev.To] += dirty[ev.Path]
					delete(dirty, ev.Path)
				case "fd":
					blind = true
				}
			})
			defer none()
			clean := func(what string) error {
				for p, n := range dirty {
					if n > 0 && !blind {
						return fmt.Errorf("%s reported success with %d writes to %s not synced", what, n, p[len(e.Dir):])
					}
				}
				return nil
			}
			path := e.Path()
			e.ClassIf(h.Simple, "simple writer")
			if h.Simple {
				w, err := col.NewSimpleWriter(path, h.options()...)
				if err != nil {
					return err
				}
				for i, c := range h.Chunks {
					p := c.Expand()
					if err := w.Write(p.IDs, p.Vals); err != nil {
						return fmt.Errorf("batch %d: %w", i, err)
					}
				}
				if err := w.Close(); err != nil {
					return err
				}
				e.NonTrivial(h.n() > 0)
				return clean("close")
			}
			w, err := col.NewWriter(path, h.options()...)
			if err != nil {
				return err
			}
			for i, c := range h.Chunks {
				for p := c.Expand(); p.Len() > 0; {
					err := w.WriteBlock(p.IDs, p.Vals)
					n := p.Len()
					if full, ok := err.(*col.BlockFullError); ok {
						n = full.ItemsWritten
						e.Class("full block")
					} else if err != nil {
						return fmt.Errorf("block %d: %w", i, err)
					}
					if n < 1 || n > p.Len() {
						return fmt.Errorf("block %d: %d of %d pairs", i, n, p.Len())
					}
					if err := clean(fmt.Sprintf("block write %d", i)); err != nil {
						return err
					}
					p = p.Slice(n, p.Len())
				}
			}
			if err := w.Finalize(); err != nil {
				return err
			}
			if err := clean("finalize"); err != nil {
				return err
			}
			if err := w.Close(); err != nil {
				return err
			}
			e.NonTrivial(h.n() > 0)
			if err := clean("close"); err != nil {
				return err
			}
			// and in one step
			path = e.Path()
			if _, err := runHistory(h, path); err != nil {
				return err
			}
			return clean("finalize and close")
		},
	})
}
