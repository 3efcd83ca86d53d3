package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	. "vibeverif/core"

	"pgregory.net/rapid"
	"vibe-lsm/pkg/col"
)

// CliCase is a write command and the read commands on its file.
type CliCase struct {
	Data    Chunk  `json:"data"`
	Spaces  int    `json:"spaces,omitempty"`  // bit 1: around ids, bit 2: around values
	Zeros   bool   `json:"zeros,omitempty"`   // leading zeros
	Default bool   `json:"default,omitempty"` // default file name
	Prior   string `json:"prior,omitempty"`   // what is under the name: nothing, "file", "longer"
	Reject  string `json:"reject,omitempty"`  // id, val: a bad token at Index; fewerids, fewervals, both (a bad token in both lists), noids, novals; nodir, full, limit
	Index   int    `json:"index,omitempty"`
	Token   string `json:"token,omitempty"`
	Limit   int    `json:"limit,omitempty"`
	Damage  string `json:"damage,omitempty"` // after a good write: cut, magic, endmagic, version, section, empty, gone, dir
	At      int    `json:"at,omitempty"`
}

var badIDs = []string{"", " ", "x", "1.5", "-1", "-0x1", "18446744073709551616", "99999999999999999999999", "0x10", "1e3", "1 2", "1;2", "a1", "1a", "NaN", "--1", "１"}
var badVals = []string{"", " ", "x", "1.5", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "0x10", "1e3", "1 2", "--1", "a1", "1a", "-", "1-"}

func (c CliCase) args(p Pairs) (ids, vals []string) {
	for i, id := range p.IDs {
		a, b := fmt.Sprint(id), fmt.Sprint(p.Vals[i])
		if c.Zeros && i%3 == 1 {
			a = "00" + a
			if p.Vals[i] >= 0 {
				b = "0" + b
			}
		}
		if c.Spaces&1 != 0 {
			a = " " + a + "  "[i%3:]
		}
		if c.Spaces&2 != 0 {
			b = "  "[i%2:] + b + " "
		}
		ids, vals = append(ids, a), append(vals, b)
	}
	return
}

// data keeps the lists within what fits one command line argument.
func (c CliCase) pairs() Pairs {
	p := c.Data.Expand()
	size := 0
	for i, id := range p.IDs {
		size += 6 + max(len(fmt.Sprint(id)), len(fmt.Sprint(p.Vals[i])))
		if c.Spaces == 0 && !c.Zeros {
			size -= 5
		}
		if size > 125000 {
			return p.Slice(0, i)
		}
	}
	return p
}

func genCli(t *rapid.T) CliCase {
	size := rapid.SampledFrom([]Size{Tiny, Tiny, Small, Mixed, Mixed}).Draw(t, "size")
	c := CliCase{Data: GenChunk(t, size, 4), Spaces: rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "spaces"), Zeros: rapid.IntRange(0, 4).Draw(t, "zeros") == 4,
		Default: rapid.IntRange(0, 4).Draw(t, "default") == 4, Prior: rapid.SampledFrom([]string{"", "", "file", "longer"}).Draw(t, "prior")}
	switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
	case k < 5:
	case k < 8:
		c.Reject = rapid.SampledFrom([]string{"id", "id", "val", "val", "both", "both", "fewerids", "fewervals", "noids", "novals", "nodir", "full", "limit"}).Draw(t, "reject")
		c.Index = rapid.IntRange(0, 5000).Draw(t, "index")
		switch c.Reject {
		case "id":
			c.Token = rapid.SampledFrom(badIDs).Draw(t, "token")
		case "val":
			c.Token = rapid.SampledFrom(badVals).Draw(t, "token")
		case "both":
			c.Token = rapid.SampledFrom([]string{"", "", " ", "x", "#1", "0x1", "1.0", "1_0", "+", "\t", "\n"}).Draw(t, "token")
			c.At = rapid.SampledFrom([]int{0, 0, 0, 1, 7}).Draw(t, "at")
		case "limit":
			c.Limit = rapid.IntRange(0, 20).Draw(t, "limit")
			c.Prior = ""
		}
	default:
		c.Damage = rapid.SampledFrom([]string{"cut", "cut", "magic", "endmagic", "version", "section", "empty", "gone", "dir"}).Draw(t, "damage")
		c.At = rapid.IntRange(0, 100000).Draw(t, "at")
	}
	return c
}

func fixedCli() []CliCase {
	var out []CliCase
	one := Chunk{{N: 1, ID: 5, V: 7}}
	edge := Chunk{}
	for i, v := range EdgeVals {
		edge = append(edge, Seg{N: 1, ID: EdgeIDs[i%len(EdgeIDs)], V: v})
	}
	for _, n := range []int{1, 2, 50, 250, 251, 252, 1018, 1019, 1020, 2040, 4000} {
		out = append(out, CliCase{Data: Chunk{{N: n, ID: 1, Step: 3, V: -100, VStep: 7}}})
	}
	// the longest lists that fit one argument
	out = append(out, CliCase{Data: Chunk{{N: 60000, ID: 7, V: 3}}}, CliCase{Data: Chunk{{N: 30000, ID: 0, Step: 1, V: 9999, VStep: -1}}})
	out = append(out, CliCase{Data: edge}, CliCase{Data: edge, Spaces: 3, Zeros: true, Prior: "longer"}, CliCase{Data: edge, Default: true},
		CliCase{Data: Chunk{{N: 1500, ID: 1 << 60, Step: 1 << 55, V: -1, VStep: -1, Mode: 1}}, Prior: "file"})
	three := append(append(append(Chunk{}, one...), one...), Seg{N: 1, ID: 8, V: -3})
	for i := 0; i < 3; i++ {
		for _, tok := range badIDs {
			out = append(out, CliCase{Data: three, Reject: "id", Index: i, Token: tok})
		}
		for _, tok := range badVals {
			out = append(out, CliCase{Data: three, Reject: "val", Index: i, Token: tok})
		}
	}
	for i := 0; i <= 3; i++ {
		for at := 0; at < 3; at++ {
			for _, tok := range []string{"", " ", "x"} {
				out = append(out, CliCase{Data: three, Reject: "both", Index: i, At: at, Token: tok})
			}
		}
	}
	for _, r := range []string{"fewerids", "fewervals", "noids", "novals", "nodir", "full"} {
		out = append(out, CliCase{Data: three, Reject: r}, CliCase{Data: one, Reject: r})
	}
	for l := 0; l < 12; l++ {
		out = append(out, CliCase{Data: Chunk{{N: 1500, ID: 1, Step: 1, V: 1}}, Reject: "limit", Limit: l})
	}
	for _, d := range []string{"magic", "endmagic", "version", "section", "empty", "gone", "dir"} {
		for at := 0; at < 8; at++ {
			out = append(out, CliCase{Data: three, Damage: d, At: at})
		}
	}
	for at := 0; at < 9000; at += 611 {
		out = append(out, CliCase{Data: three, Damage: "cut", At: at})
	}
	return out
}

func TestC22(t *testing.T) {
	Run(t, Prop[CliCase]{
		ID:    "C22",
		Rule:  "a case is one write command (good lists, or one of many ways of being refused) and dump and aggregate commands on what it left, perhaps damaged in between; non-trivial = at least two pairs written, or a refusal",
		Fixed: fixedCli,
		Gen:   genCli,
		Exec: func(e *Env, c CliCase) error {
			dir := e.Path() + ".d"
			Must(os.Mkdir(dir, 0o755))
			p := c.pairs()
			name := "t.col"
			if c.Default {
				name = "example.col"
			}
			path := filepath.Join(dir, name)
			switch c.Prior {
			case "file":
				Must(os.WriteFile(path, []byte("something else"), 0o644))
			case "longer":
				if _, err := (FileSpec{Target: 1 << 20, Chunks: []Chunk{{{N: 9000, ID: 1, Step: 1, V: 1, VStep: 1}}}}).Write(path); err != nil {
					return err
				}
			}
			ids, vals := c.args(p)
			refuse := true
			switch c.Reject {
			case "id":
				i := c.Index % len(ids)
				ids[i] = c.Token
			case "val":
				i := c.Index % len(vals)
				vals[i] = c.Token
			case "both":
				// an extra bad item in each list, At positions apart
				i := c.Index % (len(ids) + 1)
				ids = slices.Insert(ids, i, c.Token)
				vals = slices.Insert(vals, (i+c.At)%(len(vals)+1), c.Token)
			case "fewerids":
				ids = ids[:len(ids)-1-(c.Index%len(ids))]
			case "fewervals":
				vals = vals[:len(vals)-1-(c.Index%len(vals))]
			case "noids":
				ids = nil
			case "novals":
				vals = nil
			case "nodir":
				path = filepath.Join(dir, "no", "such", name)
			case "full":
				path = "/dev/full"
			case "limit":
			default:
				refuse = false
			}
			args := []string{"write"}
			if !c.Default || c.Reject == "nodir" || c.Reject == "full" {
				args = append(args, "-o", path)
			}
			args = append(args, "-ids", strings.Join(ids, ","), "-values", strings.Join(vals, ","))
			var r result
			var err error
			if c.Reject == "limit" {
				if r, err = runLimited(dir, c.Limit, "vibecol", args...); r.code == 0 {
					refuse = false // it fitted
				}
			} else {
				r, err = run(dir, "vibecol", args...)
			}
			if err != nil {
				return err
			}
			if refuse {
				e.Class("refused: " + c.Reject)
				e.NonTrivial(true)
				if r.code == 0 {
					return fmt.Errorf("the write should have been refused but ended with status 0: %.300s", r.out)
				}
				if c.Prior == "" && c.Reject != "full" {
					if rd, err := col.NewReader(path); err == nil {
						rd.Close()
						return fmt.Errorf("the refused write (%.200s) left a file that opens", r.out)
					}
				}
				return nil
			}
			if r.code != 0 {
				return fmt.Errorf("write of %d pairs ended with status %d: %.500s", p.Len(), r.code, r.out)
			}
			if c.Damage != "" {
				return readDamaged(e, c, dir, path)
			}
			read := func(flags ...string) (string, error) {
				a := []string{"read"}
				if !c.Default {
					a = append(a, "-f", path)
				}
				r, err := run(dir, "vibecol", append(a, flags...)...)
				if err != nil {
					return "", err
				}
				if r.code != 0 {
					return "", fmt.Errorf("read %v ended with status %d: %.500s", flags, r.code, r.out)
				}
				return r.out, nil
			}
			for _, flags := range [][]string{{"-dump"}, {"--dump", "--agg"}, {"-agg"}} {
				out, err := read(flags...)
				if err != nil {
					return err
				}
				got, err := dumped(out)
				if err != nil {
					return err
				}
				want := p
				if flags[0] == "-agg" {
					want = Pairs{}
				}
				if err := SamePairs(want, got); err != nil {
					return fmt.Errorf("read %v: %w", flags, err)
				}
				if flags[len(flags)-1] != "-dump" {
					if err := sameReport(out, Agg(p)); err != nil {
						return fmt.Errorf("read %v: %w", flags, err)
					}
				}
			}
			e.NonTrivial(p.Len() > 1)
			e.ClassIf(p.Len() > 1000, "several blocks")
			e.Class("accepted")
			return nil
		},
	})
}

// damage does it to a file, or takes the file away.
func damage(path, kind string, at int) error {
	b := MustRead(path)
	parsed, err := Parse(b)
	if err != nil {
		return err
	}
	switch kind {
	case "cut":
		b = b[:at%len(b)]
	case "empty":
		b = nil
	case "magic":
		b[at%8] ^= 1 << (at / 8 % 8)
	case "endmagic":
		b[len(b)-1-at%8] ^= 1 << (at / 8 % 8)
	case "version":
		b[8+at%4] ^= 1 << (at / 8 % 8)
	case "section": // a block that cannot be read
		k := parsed.Blocks[at%len(parsed.Blocks)]
		copy(b[k.Offset+64+4+8*uint64(at%2):], []byte{0xff, 0xff, 0xff, 0x7f})
	}
	switch kind {
	case "gone":
		Must(os.Remove(path))
	case "dir":
		Must(os.Remove(path))
		Must(os.Mkdir(path, 0o755))
	default:
		Must(os.WriteFile(path, b, 0o644))
	}
	return nil
}

// readDamaged checks that reading a damaged or missing file fails.
func readDamaged(e *Env, c CliCase, dir, path string) error {
	if err := damage(path, c.Damage, c.At); err != nil {
		return err
	}
	flags := [][]string{{"-dump"}, {"-agg"}, {"-dump", "-agg"}, nil}
	if c.Damage == "section" { // only the dump reads blocks
		flags = [][]string{{"-dump"}, {"-dump", "-agg"}}
	}
	e.Class("unreadable: " + c.Damage)
	e.NonTrivial(true)
	for _, f := range flags {
		r, err := run(dir, "vibecol", append([]string{"read", "-f", path}, f...)...)
		if err != nil {
			return err
		}
		if r.code == 0 {
			return fmt.Errorf("read %v of an unreadable file (%s) ended with status 0: %.300s", f, c.Damage, r.out)
		}
	}
	return nil
}
