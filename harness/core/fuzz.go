package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"
)

// Coverage-guided search over the same generators: the Go fuzzer mutates the
// stream of choices rapid draws from, keeping streams that reach new code.

var fuzzing struct {
	on    bool
	data  []byte
	guard *watchdog
	stats map[string]*fuzzStats
	dir   string
}

type fuzzStats struct {
	stats
	seen  map[uint64]struct{}
	fails int
	best  int
	n     int
}

// FuzzWith runs the property of test over streams chosen by the fuzzer.
func FuzzWith(f *testing.F, test func(*testing.T)) {
	seed := int64(envInt("VERIF_SEED", 1))
	for i := 0; i < 60; i++ {
		r := rand.New(rand.NewSource(seed*1000 + int64(i)))
		b := make([]byte, []int{800, 2400, 8000, 24000}[i%4])
		r.Read(b)
		f.Add(b)
	}
	fuzzing.on = true
	f.Fuzz(func(t *testing.T, data []byte) {
		fuzzing.data = data
		test(t)
	})
}

func runFuzz[C any](t *testing.T, p Prop[C]) {
	if p.Gen == nil {
		return
	}
	data := fuzzing.data
	rapid.MakeFuzz(func(rt *rapid.T) { fuzzCase(rt, p, p.Gen(rt)) })(t, data)
}

// FuzzBytes runs the property over cases made directly from the fuzzer's
// bytes, starting from the given ones.
func FuzzBytes[C any](f *testing.F, p Prop[C], seeds [][]byte, mk func([]byte) C) {
	for _, b := range seeds {
		f.Add(b)
	}
	f.Fuzz(func(t *testing.T, data []byte) { fuzzCase(t, p, mk(data)) })
}

func fuzzCase[C any](t interface {
	Fatalf(string, ...any)
	Skip(...any)
}, p Prop[C], c C) {
	if fuzzing.guard == nil {
		fuzzing.guard = newWatchdog()
		fuzzing.stats = map[string]*fuzzStats{}
		dir, err := os.MkdirTemp(Scratch(), "verif-fuzz-")
		Must(err)
		fuzzing.dir = dir
	}
	st := fuzzing.stats[p.Part]
	if st == nil {
		st = &fuzzStats{seen: map[uint64]struct{}{}}
		st.Property, st.Part, st.Rule, st.Classes = p.ID, p.Part, p.Rule, map[string]int{}
		fuzzing.stats[p.Part] = st
	}
	out := os.Getenv("VERIF_OUT")
	name := fmt.Sprintf("%s-fuzz-%d", p.Part, os.Getpid())
	raw, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	save := func(why string) {
		if st.fails > 0 && len(raw) >= st.best {
			return
		}
		st.fails, st.best = st.fails+1, len(raw)
		b, _ := json.MarshalIndent(envelope{Property: p.ID, Part: p.Part, Error: why, Case: raw}, "", " ")
		os.WriteFile(filepath.Join(out, "failure-"+name+".json"), b, 0o644)
	}
	b, _ := json.Marshal(envelope{Property: p.ID, Part: p.Part, Case: raw})
	inflight := filepath.Join(out, "inflight-"+name+".json")
	os.WriteFile(inflight, b, 0o644)
	fuzzing.guard.onHang = func(msg string) {
		save(msg)
		os.Exit(7)
	}
	env := &Env{Dir: fuzzing.dir, classes: map[string]int{}, guard: fuzzing.guard}
	fuzzing.guard.start()
	err = execute(&p, env, c)
	fuzzing.guard.stop()
	clearDir(fuzzing.dir)
	os.Remove(inflight)
	if err != nil && isEnv(err) {
		t.Skip()
	}
	st.Evaluations++
	st.Classes["coverage-guided"]++
	for k, v := range env.classes {
		st.Classes[k] += v
	}
	if env.nontrivial && len(st.seen) < 50000 {
		h := fnv.New64a()
		h.Write([]byte(p.Part))
		h.Write(raw)
		if _, dup := st.seen[h.Sum64()]; !dup {
			st.seen[h.Sum64()] = struct{}{}
			st.Hashes = append(st.Hashes, h.Sum64())
		}
	}
	if err != nil {
		save(err.Error())
		t.Fatalf("property %s violated: %v", p.ID, err)
	}
	if st.Evaluations%300 == 1 {
		b, _ := json.Marshal(&st.stats)
		tmp := filepath.Join(out, "tmp-"+name)
		if os.WriteFile(tmp, b, 0o644) == nil {
			os.Rename(tmp, filepath.Join(out, "stats-"+name+".json"))
		}
	}
}
