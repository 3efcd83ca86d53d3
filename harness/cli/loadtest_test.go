package cli

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"testing"

	. "vibeverif/core"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// AggRun is one aggregate command.
type AggRun struct {
	Parallel int    `json:"parallel"`
	Cache    string `json:"cache"`           // value of -skip-cache, "" = not given
	Procs    int    `json:"procs,omitempty"` // processors; 0 = four
}

// ImportCase is an import, made twice, and aggregate commands on the file.
type ImportCase struct {
	N         int      `json:"n"`
	BlockSize int      `json:"block_size"` // 0 = not given
	Seed      int64    `json:"seed"`
	MaxValue  int64    `json:"max_value"`
	MaxID     uint64   `json:"max_id"`
	Sub       bool     `json:"sub"`              // into a directory that does not exist yet
	Prior     string   `json:"prior,omitempty"`  // under the name before: nothing, "junk", "file"
	Refuse    string   `json:"refuse,omitempty"` // why it must fail: limit (of file size), dir (under the name), below (a file)
	Limit     int      `json:"limit,omitempty"`
	Runs      []AggRun `json:"runs"`
}

// AggCase is a file made by the library and aggregate commands on it.
type AggCase struct {
	File   FileSpec `json:"file"`
	Damage string   `json:"damage,omitempty"` // see damage
	At     int      `json:"at,omitempty"`
	Runs   []AggRun `json:"runs"`
}

// refused runs an import that cannot succeed, or not beyond the limit.
func (c ImportCase) refused(e *Env, dir string) error {
	e.NonTrivial(true)
	path := filepath.Join(dir, "t.col")
	var before []byte
	switch {
	case c.Refuse == "dir":
		Must(os.Mkdir(path, 0o755))
	case c.Refuse == "below":
		Must(os.WriteFile(path, []byte("a file"), 0o644))
		path = filepath.Join(path, "t.col")
	case c.Prior != "":
		before = c.prior(path)
	}
	args := c.args(path)
	limit := 1 << 30
	if c.Refuse == "limit" {
		limit = c.Limit
	}
	r, err := runLimited(dir, limit, "loadtest", args...)
	if err != nil {
		return err
	}
	if c.Refuse == "limit" && r.code == 0 {
		e.Class("fits the limit")
		p, err := readFile(path)
		if err != nil {
			return fmt.Errorf("import with writes beyond %d bytes failing ended with status 0: %w", c.Limit*512, err)
		}
		if p.Len() != c.N {
			return fmt.Errorf("import of %d values made a file of %d pairs", c.N, p.Len())
		}
		return nil
	}
	if r.code == 0 {
		return fmt.Errorf("%v ended with status 0, though it cannot succeed (%s): %.400s", args, c.Refuse, r.out)
	}
	e.Class("refused: " + c.Refuse)
	switch {
	case c.Refuse == "" && before != nil:
		if now := MustRead(path); !bytes.Equal(before, now) {
			return fmt.Errorf("%v was refused, but changed the file under the name from %d to %d bytes", args, len(before), len(now))
		}
	case c.Refuse == "" || c.Refuse == "limit":
		if rd, err := col.NewReader(path); err == nil {
			rd.Close()
			return fmt.Errorf("%v failed, but left a file that opens", args)
		}
	}
	return nil
}

func (c ImportCase) prior(path string) []byte {
	b := bytes.Repeat([]byte{0xb5, 0, 7}, 40000)
	if c.Prior == "file" {
		b = Build([]Pairs{{IDs: make([]uint64, 9000), Vals: make([]int64, 9000)}, {IDs: []uint64{7}, Vals: []int64{-1}}}, BuildOpts{Enc: uint32(c.N % 8)})
	}
	Must(os.WriteFile(path, b, 0o644))
	return b
}

func (c ImportCase) args(path string) []string {
	args := []string{"import", "-n", fmt.Sprint(c.N), "-file", path, fmt.Sprintf("-seed=%d", c.Seed), fmt.Sprintf("-max-value=%d", c.MaxValue), fmt.Sprintf("-max-id=%d", c.MaxID)}
	if c.BlockSize != 0 {
		args = append(args, fmt.Sprintf("-block-size=%d", c.BlockSize))
	}
	return args
}

func genRuns(t *rapid.T) []AggRun {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) AggRun {
		return AggRun{rapid.SampledFrom([]int{0, -1, 1, 2, 3, 4, 5, 7, 16, 1000}).Draw(t, "parallel"), rapid.SampledFrom([]string{"", "true", "false", "false"}).Draw(t, "cache"), rapid.SampledFrom([]int{0, 0, 1, 2, 3, 7, 32}).Draw(t, "procs")}
	}), 1, 4).Draw(t, "runs")
}

var allRuns = func() (out []AggRun) {
	for _, p := range []int{0, -1, 1, 2, 3, 8, 100} {
		for _, c := range []string{"", "false"} {
			out = append(out, AggRun{Parallel: p, Cache: c})
		}
	}
	return append(out, AggRun{Parallel: -1, Cache: "false", Procs: 1}, AggRun{Parallel: -1, Procs: 3})
}()

var fullScan = regexp.MustCompile(`(?m)^Full scan: (\d+) values`)

func (a AggRun) args(path string) []string {
	args := []string{"aggregate", "-file", path, fmt.Sprintf("-parallel=%d", a.Parallel)}
	if a.Cache != "" {
		args = append(args, "-skip-cache="+a.Cache)
	}
	return args
}

// aggregate runs the commands and compares with the pairs of the file.
func aggregate(dir, path string, p Pairs, runs []AggRun) error {
	for _, a := range runs {
		args := a.args(path)
		if a.Procs > 0 {
			procs = a.Procs
		}
		r, err := run(dir, "loadtest", args...)
		procs = 4
		if err != nil {
			return err
		}
		if r.code != 0 {
			return fmt.Errorf("%v ended with status %d: %.400s", args, r.code, r.out)
		}
		if err := sameReport(r.out, Agg(p)); err != nil {
			return fmt.Errorf("%+v: %w", a, err)
		}
		m := fullScan.FindStringSubmatch(r.out)
		if m == nil || m[1] != fmt.Sprint(p.Len()) {
			return fmt.Errorf("%+v: full scan %v of %d values", a, m, p.Len())
		}
	}
	return nil
}

func readFile(path string) (Pairs, error) {
	r, err := col.NewReader(path)
	if err != nil {
		return Pairs{}, fmt.Errorf("open: %w", err)
	}
	defer r.Close()
	b, err := ReadBlocks(r)
	return Flatten(b), err
}

// sizes checks that the file keeps to the block size of the import.
func (c ImportCase) sizes(path string) error {
	p, err := Parse(MustRead(path))
	if err != nil {
		return fmt.Errorf("parse: %w", err)
	}
	target := uint32(c.BlockSize)
	if c.BlockSize == 0 {
		target = 10000
	}
	if p.Target != target {
		return fmt.Errorf("import with block size %d records a target of %d", target, p.Target)
	}
	for i, b := range p.Blocks {
		if s := EncodedBlockSize(b.Pairs, p.Enc, b.Offset); b.Pairs.Len() > 1 && s > uint64(target) {
			return fmt.Errorf("import with block size %d makes a block %d of %d pairs and %d bytes", target, i, b.Pairs.Len(), s)
		}
	}
	return nil
}

// maximaOK says whether there are ids, values and sizes within the limits.
func (c ImportCase) maximaOK() bool { return c.MaxValue >= 1 && c.MaxID >= 1 && TargetOK(c.BlockSize) }

func TestC23(t *testing.T) {
	Run(t, Prop[ImportCase]{
		ID:   "C23",
		Rule: "a case is an import run twice with the same seed and parameters, and aggregate commands on the file; non-trivial = at least 100 values",
		Fixed: func() []ImportCase {
			var out []ImportCase
			for _, n := range []int{0, 1, 2, 999, 1000, 1001, 9999, 10000, 10001, 20000, 23456} {
				out = append(out, ImportCase{N: n, Seed: int64(n), MaxValue: 1000000, MaxID: 20000000, Runs: allRuns})
			}
			for _, v := range []int64{1, 2, 5, 9, 10, 11, 19} {
				out = append(out, ImportCase{N: 400, Seed: v, MaxValue: v, MaxID: 1000, Runs: allRuns[:2]})
			}
			out = append(out, ImportCase{N: 300, BlockSize: 100, Seed: 4, MaxValue: 50, MaxID: 70, Runs: allRuns},
				ImportCase{N: 12000, BlockSize: 4096, Seed: -4, MaxValue: 1 << 62, MaxID: 1<<63 - 1, Sub: true, Runs: allRuns},
				ImportCase{N: 12000, BlockSize: 65536, Seed: 1 << 62, MaxValue: 20, MaxID: 1, Runs: allRuns, Prior: "file"},
				ImportCase{N: 400, Seed: 3, MaxValue: 20, MaxID: 1 << 63, Runs: allRuns[:2], Prior: "junk"},
				ImportCase{N: 25000, Seed: 3, MaxValue: math.MaxInt64, MaxID: math.MaxUint64, Runs: allRuns[:2]},
				ImportCase{N: 10, Seed: 3, MaxValue: 0, MaxID: 7}, ImportCase{N: 10, Seed: 3, MaxValue: 0, MaxID: 7, Prior: "file"}, ImportCase{N: 10, Seed: 3, MaxValue: 5, Prior: "junk"},
				ImportCase{N: 10, Seed: 3, MaxValue: math.MinInt64, MaxID: 7, Prior: "file"}, ImportCase{N: 10, Seed: 3, MaxValue: 5},
				ImportCase{N: 3000, BlockSize: math.MaxUint32, Seed: 3, MaxValue: 5, MaxID: 9, Runs: allRuns[:1]}, ImportCase{N: 3000, BlockSize: 10001, Seed: 3, MaxValue: 5, MaxID: 9, Runs: allRuns[:1]},
				ImportCase{N: 300, BlockSize: 1 << 32, Seed: 3, MaxValue: 5, MaxID: 9}, ImportCase{N: 300, BlockSize: -1, Seed: 3, MaxValue: 5, MaxID: 9, Prior: "file"}, ImportCase{N: 300, BlockSize: 1<<33 + 4096, Seed: 3, MaxValue: 5, MaxID: 9, Prior: "file"},
				ImportCase{N: 10, Seed: 3, MaxValue: 5, MaxID: 5, Refuse: "dir"}, ImportCase{N: 10, Seed: 3, MaxValue: 5, MaxID: 5, Refuse: "below"})
			for l := 0; l < 60; l += 1 + l/8 {
				out = append(out, ImportCase{N: 1500, Seed: 3, MaxValue: 5, MaxID: 5000, Refuse: "limit", Limit: l})
			}
			return out
		},
		Gen: func(t *rapid.T) ImportCase {
			c := ImportCase{N: rapid.SampledFrom([]int{1, 5, 250, 999, 1000, 1001, 1999, 3000, 9999, 10000, 10001, 20001}).Draw(t, "n"),
				BlockSize: rapid.SampledFrom([]int{0, 0, 4096, 8192, 16384, 40000, 131072, 2000}).Draw(t, "bs"),
				Seed:      rapid.Int64().Draw(t, "seed"),
				MaxValue:  rapid.SampledFrom([]int64{1, 2, 9, 10, 19, 20, 21, 100, 1000000, 1 << 40, 1 << 62}).Draw(t, "maxv"),
				MaxID:     rapid.SampledFrom([]uint64{1, 2, 1000, 20000000, 1 << 40, 1<<63 - 1, 1 << 63, 3 << 62, math.MaxUint64}).Draw(t, "maxid"),
				Prior:     rapid.SampledFrom([]string{"", "", "junk", "file"}).Draw(t, "prior"),
				Sub:       rapid.Bool().Draw(t, "sub"), Runs: genRuns(t)}
			if rapid.Bool().Draw(t, "anyn") {
				c.N = rapid.IntRange(0, 24000).Draw(t, "n2")
			}
			if c.BlockSize != 0 && c.BlockSize < 4096 {
				c.N = min(c.N, 1500)
			}
			switch rapid.IntRange(0, 16).Draw(t, "kind") {
			case 11:
				c.BlockSize = rapid.SampledFrom([]int{-1, math.MinInt64, 1 << 32, 1<<32 + 4096, math.MaxInt64, -4096, math.MaxUint32, math.MaxInt32 + 1}).Draw(t, "bs2")
			case 12:
				c.MaxValue = rapid.SampledFrom([]int64{0, -1, math.MinInt64}).Draw(t, "nov")
			case 13:
				c.MaxID = 0
			case 14, 15:
				c.Refuse, c.Prior = "limit", ""
				c.Limit = rapid.IntRange(0, 400).Draw(t, "limit")
			}
			return c
		},
		Exec: func(e *Env, c ImportCase) error {
			dir := e.Path() + ".d"
			Must(os.Mkdir(dir, 0o755))
			if c.Refuse != "" || !c.maximaOK() {
				return c.refused(e, dir)
			}
			var got [2]Pairs
			path := ""
			for i := range got {
				path = filepath.Join(dir, fmt.Sprintf("t%d.col", i))
				if c.Sub {
					path = filepath.Join(dir, "a", "b", fmt.Sprintf("t%d.col", i))
				}
				if i == 1 && c.Prior != "" && !c.Sub {
					c.prior(path)
					e.Class("over a file")
				}
				args := c.args(path)
				r, err := run(dir, "loadtest", args...)
				if err != nil {
					return err
				}
				if r.code != 0 {
					return fmt.Errorf("%v ended with status %d: %.400s", args, r.code, r.out)
				}
				for _, name := range []string{"Total values", "Total items written"} {
					v, err := number(r.out, name)
					if err != nil {
						return err
					}
					if v != fmt.Sprint(c.N) {
						return fmt.Errorf("import of %d values reports %s: %s", c.N, name, v)
					}
				}
				if got[i], err = readFile(path); err != nil {
					return err
				}
				if got[i].Len() != c.N {
					return fmt.Errorf("import of %d values made a file of %d pairs", c.N, got[i].Len())
				}
				if err := c.sizes(path); err != nil {
					return err
				}
			}
			if err := SamePairs(got[0], got[1]); err != nil {
				return fmt.Errorf("two imports with the same seed differ: %w", err)
			}
			e.NonTrivial(c.N >= 100)
			e.ClassIf(c.N > 10000, "several batches")
			return aggregate(dir, path, got[1], c.Runs)
		},
	})
}

func TestC23Aggregate(t *testing.T) {
	Run(t, Prop[AggCase]{
		ID: "C23", Part: "aggregate", Weight: 2,
		Rule: "a case is a file of any encoding and content made by the library, and aggregate commands on it; non-trivial = at least two pairs",
		Fixed: func() []AggCase {
			var out []AggCase
			edge := Chunk{}
			for i, v := range EdgeVals {
				edge = append(edge, Seg{N: 1, ID: EdgeIDs[i%len(EdgeIDs)], V: v})
			}
			for enc := uint32(0); enc < 8; enc++ {
				out = append(out, AggCase{File: FileSpec{Enc: enc}, Runs: allRuns[:4]}, AggCase{File: FileSpec{Enc: enc, Chunks: []Chunk{edge, {{N: 9, ID: 4, Step: 1, V: -9, VStep: 1}}, {{N: 2000, ID: 4, Step: 1, V: -9, VStep: -3}}}}, Runs: allRuns})
				for i, d := range []string{"cut", "magic", "endmagic", "version", "section", "section", "empty", "gone", "dir"} {
					out = append(out, AggCase{File: FileSpec{Enc: enc, Chunks: []Chunk{edge, {{N: 9, ID: 4, Step: 1, V: -9, VStep: 1}}}}, Damage: d, At: i + 7*int(enc), Runs: allRuns[4:8]})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) AggCase {
			c := AggCase{File: GenFile(t, 5), Runs: genRuns(t)}
			if rapid.IntRange(0, 3).Draw(t, "damaged") == 3 {
				c.Damage = rapid.SampledFrom([]string{"cut", "cut", "magic", "endmagic", "version", "section", "section", "section", "empty", "gone", "dir"}).Draw(t, "damage")
				c.At = rapid.IntRange(0, 100000).Draw(t, "at")
			}
			return c
		},
		Exec: func(e *Env, c AggCase) error {
			path := e.Path()
			blocks, err := c.File.Write(path)
			if err != nil {
				return err
			}
			p := Flatten(blocks)
			e.NonTrivial(p.Len() > 1)
			if c.Damage == "section" && len(blocks) == 0 {
				c.Damage = "" // no block to damage
			}
			if c.Damage != "" {
				e.Class("unreadable: " + c.Damage)
				if err := damage(path, c.Damage, c.At); err != nil {
					return err
				}
				for _, a := range c.Runs {
					args := a.args(path)
					r, err := run(e.Dir, "loadtest", args...)
					if err != nil {
						return err
					}
					if r.code == 0 {
						return fmt.Errorf("%v on an unreadable file (%s) ended with status 0: %.400s", args, c.Damage, r.out)
					}
				}
				return nil
			}
			return aggregate(e.Dir, path, p, c.Runs)
		},
	})
}
