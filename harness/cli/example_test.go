package cli

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	. "vibeverif/core"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// ExEntry is one entry of the demonstration file's block index.
type ExEntry struct {
	Count uint32 `json:"count"`
	Min   int64  `json:"min"`
	Max   int64  `json:"max"`
	Sum   int64  `json:"sum"`
}

// ExampleCase is a demonstration file made by write_example, perhaps with its
// ten pairs and its index replaced or damaged, and how read_example shows it.
type ExampleCase struct {
	Prior   string    `json:"prior,omitempty"` // under the name before: "", file, longer, full (a device without room), dir, limit
	Limit   int       `json:"limit,omitempty"`
	IDs     []uint64  `json:"ids,omitempty"` // ten ids and values instead of its own
	Vals    []int64   `json:"vals,omitempty"`
	Entries []ExEntry `json:"entries,omitempty"` // index entries instead of its own
	Version uint32    `json:"version,omitempty"`
	Blocks  uint64    `json:"blocks,omitempty"`
	Named   bool      `json:"named,omitempty"`  // pass the file with -file
	Damage  string    `json:"damage,omitempty"` // cut, magic, endmagic, count, bytes, gone, dir
	At      int       `json:"at,omitempty"`
	Val     uint32    `json:"val,omitempty"`
}

var (
	exIDs  = []uint64{1, 5, 10, 15, 20, 25, 30, 35, 40, 45}
	exVals = []int64{100, 200, 300, 400, 500, 600, 700, 800, 900, 1000}
)

const (
	exIDOff, exValOff, exFooter = 0xa0, 0xf0, 0x140
)

func genExample(t *rapid.T) ExampleCase {
	c := ExampleCase{Prior: rapid.SampledFrom([]string{"", "", "", "file", "longer", "full", "dir", "limit"}).Draw(t, "prior"), Named: rapid.Bool().Draw(t, "named")}
	if c.Prior == "limit" {
		c.Limit = rapid.IntRange(0, 2).Draw(t, "limit")
	}
	if rapid.IntRange(0, 4).Draw(t, "own") > 0 {
		for i := 0; i < 10; i++ {
			c.IDs = append(c.IDs, GenID(t))
			c.Vals = append(c.Vals, GenVal(t))
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "index") > 0 {
		n := rapid.SampledFrom([]int{1, 1, 2, 3, 20, 300}).Draw(t, "entries")
		e := ExEntry{GenCount(t), GenVal(t), GenVal(t), GenVal(t)}
		for i := 0; i < n; i++ {
			c.Entries = append(c.Entries, e)
			if i < 5 {
				e = ExEntry{GenCount(t), GenVal(t), GenVal(t), GenVal(t)}
			}
			e.Sum += 7
		}
	}
	if rapid.Bool().Draw(t, "header") {
		c.Version = uint32(1 + rapid.Uint32().Draw(t, "version")%math.MaxUint32)
		c.Blocks = 1 + rapid.Uint64().Draw(t, "blocks")%math.MaxUint64
	}
	if rapid.IntRange(0, 2).Draw(t, "damaged") == 2 {
		c.Damage = rapid.SampledFrom([]string{"cut", "cut", "magic", "endmagic", "count", "bytes", "bytes", "gone", "dir"}).Draw(t, "damage")
		c.At = rapid.IntRange(0, 1<<20).Draw(t, "at")
		c.Val = rapid.OneOf(rapid.Just(uint32(math.MaxUint32)), rapid.Uint32()).Draw(t, "val")
	}
	return c
}

// GenCount draws the number of pairs of an index entry.
func GenCount(t *rapid.T) uint32 {
	return rapid.SampledFrom([]uint32{1, 1, 2, 10, 10, 1000, 1 << 20}).Draw(t, "count")
}

func fixedExample() []ExampleCase {
	out := []ExampleCase{{}, {Named: true}, {Prior: "file"}, {Prior: "longer"}, {Prior: "full"}, {Prior: "dir"}, {Prior: "limit"}, {Prior: "limit", Limit: 1}, {Damage: "gone"}, {Damage: "dir"},
		{IDs: []uint64{0, math.MaxUint64, 7, 7, 1 << 63, 1, 2, 3, 4, 5}, Vals: []int64{math.MinInt64, math.MaxInt64, -1, 0, 1, -5, 5, 9, -9, 2}, Entries: []ExEntry{{10, math.MinInt64, math.MaxInt64, 1}}},
		{Entries: []ExEntry{{3, -5, -1, -9}, {4, 2, 8, 20}, {1, -100, -100, -100}}}}
	for at := 0; at < 404; at++ {
		out = append(out, ExampleCase{Damage: "cut", At: at})
	}
	for at := 0; at < 64; at++ {
		out = append(out, ExampleCase{Damage: "magic", At: at}, ExampleCase{Damage: "endmagic", At: at})
	}
	for _, v := range []uint32{2, 3, 100, 1 << 16, 1 << 24, 1 << 28, 1 << 31, math.MaxUint32} {
		out = append(out, ExampleCase{Damage: "count", Val: v})
	}
	return out
}

func TestC27(t *testing.T) {
	Run(t, Prop[ExampleCase]{
		ID:    "C27",
		Rule:  "a case is one run of write_example over what is under its name, then read_example with each combination of flags on the file, its ten pairs and its index kept or replaced by generated ones, or damaged; non-trivial = replaced pairs or index, or a refusal",
		Fixed: fixedExample,
		Gen:   genExample,
		Exec: func(e *Env, c ExampleCase) error {
			dir := e.Path() + ".d"
			Must(os.Mkdir(dir, 0o755))
			path := filepath.Join(dir, "example.col")
			switch c.Prior {
			case "file":
				Must(os.WriteFile(path, []byte("something else"), 0o644))
			case "longer":
				Must(os.WriteFile(path, bytes.Repeat([]byte("longer"), 1000), 0o644))
			case "full":
				Must(os.Symlink("/dev/full", path))
			case "dir":
				Must(os.Mkdir(path, 0o755))
			}
			var r result
			var err error
			refuse := c.Prior == "full" || c.Prior == "dir"
			if c.Prior == "limit" {
				Must(os.WriteFile(filepath.Join(dir, "limit.sh"), []byte(fmt.Sprintf("ulimit -f %d\nexec \"$@\"\n", c.Limit)), 0o644))
				cmd := exec.Command("/bin/sh", "limit.sh", filepath.Join(os.Getenv("VERIF_BIN"), "write_example"))
				cmd.Dir = dir
				Waiting.Store(true)
				out, cerr := cmd.CombinedOutput()
				Waiting.Store(false)
				r.out = string(out)
				if refuse = cerr != nil; refuse {
					r.code = 1
				}
			} else if r, err = run(dir, "write_example"); err != nil {
				return err
			}
			if refuse {
				e.Class("refused: " + c.Prior)
				e.NonTrivial(true)
				if r.code == 0 {
					return fmt.Errorf("writing the demonstration file (%s) cannot have succeeded but ended with status 0: %.300s", c.Prior, r.out)
				}
				return nil
			}
			if r.code != 0 {
				return fmt.Errorf("write_example ended with status %d: %.500s", r.code, r.out)
			}
			b := MustRead(path)
			for _, want := range []string{"Wrote example file with 10 entries to example.col", fmt.Sprintf("File size: %d bytes", len(b))} {
				if !strings.Contains(r.out, want) {
					return fmt.Errorf("write_example says %q, want %q", r.out, want)
				}
			}
			if len(b) < exFooter+4+56+16 {
				return fmt.Errorf("the demonstration file has %d bytes", len(b))
			}
			// as written, then as replaced
			if err := showExample(e, c, dir, exIDs, exVals, []ExEntry{{10, 100, 1000, 5500}}, 1, 1); err != nil {
				return fmt.Errorf("as written: %w", err)
			}
			le := binary.LittleEndian
			ids, vals, entries, version, blocks := exIDs, exVals, []ExEntry{{10, 100, 1000, 5500}}, uint32(1), uint64(1)
			if len(c.IDs) == 10 && len(c.Vals) == 10 {
				ids, vals = c.IDs, c.Vals
				for i := range ids {
					le.PutUint64(b[exIDOff+8*i:], ids[i])
					le.PutUint64(b[exValOff+8*i:], uint64(vals[i]))
				}
			}
			if c.Version != 0 && c.Blocks != 0 {
				version, blocks = c.Version, c.Blocks
				le.PutUint32(b[8:], version)
				le.PutUint64(b[16:], blocks)
			}
			if len(c.Entries) > 0 {
				entries = c.Entries
				end := b[exFooter+4+56:]
				f := le.AppendUint32(append([]byte(nil), b[:exFooter]...), uint32(len(entries)))
				for i, en := range entries {
					f = le.AppendUint64(f, uint64(64+4096*i))
					f = le.AppendUint32(f, 160)
					f = le.AppendUint64(f, uint64(i))
					f = le.AppendUint64(f, uint64(i+1))
					f = le.AppendUint64(f, uint64(en.Min))
					f = le.AppendUint64(f, uint64(en.Max))
					f = le.AppendUint64(f, uint64(en.Sum))
					f = le.AppendUint32(f, en.Count)
				}
				b = append(f, end...)
			}
			Must(os.WriteFile(path, b, 0o644))
			e.NonTrivial(len(c.IDs) > 0 || len(c.Entries) > 0)
			if c.Damage == "" {
				return showExample(e, c, dir, ids, vals, entries, version, blocks)
			}
			mustFail := true
			switch c.Damage {
			case "cut":
				b = b[:c.At%len(b)]
				mustFail = len(b) < 8 || string(b[len(b)-8:]) != string(MustRead(path)[:8])
			case "magic":
				b[c.At%8] ^= 1 << (c.At / 8 % 8)
			case "endmagic":
				b[len(b)-1-c.At%8] ^= 1 << (c.At / 8 % 8)
			case "count":
				le.PutUint32(b[exFooter:], c.Val)
				mustFail = uint64(c.Val)*56 > uint64(len(b)-exFooter-4)
			case "bytes":
				for k := 0; k < 1+c.At%5; k++ {
					b[(c.At*(k+1)+k*int(c.Val%977))%len(b)] ^= byte(c.Val >> (8 * (k % 4)))
				}
				mustFail = false
			}
			switch c.Damage {
			case "gone":
				Must(os.Remove(path))
			case "dir":
				Must(os.Remove(path))
				Must(os.Mkdir(path, 0o755))
			default:
				Must(os.WriteFile(path, b, 0o644))
			}
			e.Class("damaged: " + c.Damage)
			e.NonTrivial(true)
			for _, f := range [][]string{{"-dump"}, {"-agg"}, nil} {
				r, err := run(dir, "read_example", f...)
				if err != nil {
					return err
				}
				if strings.Contains(r.out, "goroutine ") || strings.Contains(r.out, "out of memory") || r.code > 1 {
					return fmt.Errorf("read_example %v of a damaged file (%s) crashed, status %d: %.400s", f, c.Damage, r.code, r.out)
				}
				if mustFail && r.code == 0 {
					return fmt.Errorf("read_example %v of an unreadable file (%s) ended with status 0: %.300s", f, c.Damage, r.out)
				}
			}
			return nil
		},
	})
}

// showExample checks what read_example prints.
func showExample(e *Env, c ExampleCase, dir string, ids []uint64, vals []int64, entries []ExEntry, version uint32, blocks uint64) error {
	total := col.AggregateResult{Min: math.MaxInt64, Max: math.MinInt64}
	var count uint32
	for _, en := range entries {
		count += en.Count
		total.Sum += en.Sum
		total.Min, total.Max = min(total.Min, en.Min), max(total.Max, en.Max)
	}
	total.Count = int(count)
	total.Avg = float64(total.Sum) / float64(count)
	for _, flags := range [][]string{{"-dump"}, {"--agg"}, {"-dump", "-agg"}, nil} {
		a := flags
		name := "example.col"
		if c.Named {
			name = filepath.Join(dir, name)
			a = append([]string{"-file", name}, flags...)
		}
		r, err := run(dir, "read_example", a...)
		if err != nil {
			return err
		}
		if r.code != 0 {
			return fmt.Errorf("read_example %v ended with status %d: %.500s", flags, r.code, r.out)
		}
		for _, want := range []string{fmt.Sprintf("File: %s\n", name), fmt.Sprintf("Version: %d\n", version), fmt.Sprintf("Blocks: %d\n", blocks)} {
			if !strings.Contains(r.out, want) {
				return fmt.Errorf("read_example %v: %q is missing in %.300q", flags, want, r.out)
			}
		}
		pairs, stats, _ := strings.Cut(r.out, "Block Statistics")
		stats, agg, found := strings.Cut(stats, "Aggregate Statistics")
		if !found {
			_, agg, _ = strings.Cut(pairs, "Aggregate Statistics")
		}
		got, err := dumped(pairs)
		if err != nil {
			return err
		}
		if len(flags) > 0 && flags[0] == "-dump" {
			want := Pairs{IDs: ids, Vals: vals}
			if err := SamePairs(want, got); err != nil {
				return fmt.Errorf("read_example %v: %w", flags, err)
			}
			st := Agg(want)
			lo, hi := ids[0], ids[0]
			for _, id := range ids {
				lo, hi = min(lo, id), max(hi, id)
			}
			for _, w := range []string{"Count: 10\n", fmt.Sprintf("Min ID: %d, Max ID: %d\n", lo, hi), fmt.Sprintf("Min Value: %d, Max Value: %d\n", st.Min, st.Max), fmt.Sprintf("Sum: %d\n", st.Sum), fmt.Sprintf("Average: %.2f\n", float64(st.Sum)/10)} {
				if !strings.Contains(stats, w) {
					return fmt.Errorf("read_example %v: %q is missing in the statistics %.300q", flags, w, stats)
				}
			}
		} else if got.Len() > 0 {
			return fmt.Errorf("read_example %v shows %d pairs", flags, got.Len())
		}
		if len(flags) > 0 && strings.HasSuffix(flags[len(flags)-1], "-agg") {
			if err := sameReport(agg, total); err != nil {
				return fmt.Errorf("read_example %v: %w", flags, err)
			}
		} else if agg != "" {
			return fmt.Errorf("read_example %v shows aggregates", flags)
		}
	}
	return nil
}
