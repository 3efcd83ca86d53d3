// Package core is the property-based testing runner shared by all checks: it
// draws cases with rapid, executes them against the code under test, counts
// what was generated and leaves the minimal failing case behind as JSON.
package core

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one executable property (or one part of one).
type Prop[C any] struct {
	ID     string  // property id, C01...
	Part   string  // part name when a property has several generators
	Rule   string  // how cases are made and what makes one non-trivial
	Weight float64 // share of the configured number of cases (1 when 0)
	Gen    func(*rapid.T) C
	Fixed  func() []C // enumerated cases, run before the generated ones
	Exec   func(*Env, C) error
}

// Env is what one execution of a case may use.
type Env struct {
	Dir        string
	nontrivial bool
	classes    map[string]int
	n          int
	Replay     bool
	guard      *watchdog
}

// Progress tells the watchdog that a part of the case has ended.
func (e *Env) Progress() { e.guard.start() }

// Path returns a fresh file name in the scratch directory.
func (e *Env) Path() string {
	e.n++
	return filepath.Join(e.Dir, fmt.Sprintf("f%d.col", e.n))
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (e *Env) NonTrivial(b bool) {
	if b {
		e.nontrivial = true
	}
}

// Class counts the case under a name in the class distribution.
func (e *Env) Class(name string) { e.classes[name]++ }

// ClassIf counts the case under name when b holds.
func (e *Env) ClassIf(b bool, name string) {
	if b {
		e.classes[name]++
	}
}

// EnvError is a failure of the harness or of the machine, not of the code.
type EnvError struct{ Err error }

func (e *EnvError) Error() string { return "environment: " + e.Err.Error() }
func (e *EnvError) Unwrap() error { return e.Err }

// Must turns a harness-side error into an EnvError panic.
func Must(err error) {
	if err != nil {
		panic(&EnvError{err})
	}
}

// MustRead reads a whole file for the harness.
func MustRead(path string) []byte {
	b, err := os.ReadFile(path)
	Must(err)
	return b
}

// Violationf builds the error for a broken property.
func Violationf(format string, args ...any) error { return fmt.Errorf(format, args...) }

func isEnv(err error) bool {
	var ee *EnvError
	if errors.As(err, &ee) {
		return true
	}
	for _, no := range []syscall.Errno{syscall.ENOSPC, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.EDQUOT} {
		if errors.Is(err, no) || strings.Contains(err.Error(), no.Error()) {
			return !strings.Contains(err.Error(), "injected")
		}
	}
	return false
}

type envelope struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type stats struct {
	Property    string            `json:"property"`
	Part        string            `json:"part"`
	Rule        string            `json:"rule"`
	Shard       int               `json:"shard"`
	Evaluations int               `json:"evaluations"`
	Enumerated  int               `json:"enumerated"`
	Skipped     int               `json:"skipped_after_budget"`
	Hashes      []uint64          `json:"hashes"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Failed      bool              `json:"failed"`
	EnvError    string            `json:"env_error,omitempty"`
	WallS       float64           `json:"wall_s"`
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

// PostExec, when set, is asked after every execution for an extra failure
// (the race build uses it to pick up reports of the race detector).
var PostExec func() error

func execute[C any](p *Prop[C], env *Env, c C) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(*EnvError); ok {
				err = ee
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	err = p.Exec(env, c)
	if err == nil && PostExec != nil {
		err = PostExec()
	}
	return err
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Scratch returns the directory under which scratch files are made.
func Scratch() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		return "/dev/shm"
	}
	return os.TempDir()
}

func clearDir(dir string) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range ents {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

// Run decides one property part: replay of a saved case when VERIF_REPLAY is
// set, otherwise the enumerated and the generated cases of this shard.
func Run[C any](t *testing.T, p Prop[C]) {
	if fuzzing.on {
		runFuzz(t, p)
		return
	}
	dir, err := os.MkdirTemp(Scratch(), "verif-"+p.ID+"-")
	if err != nil {
		t.Fatalf("environment: %v", err)
	}
	defer os.RemoveAll(dir)
	guard := newWatchdog()
	one := func(c C) (*Env, error) {
		env := &Env{Dir: dir, classes: map[string]int{}, Replay: os.Getenv("VERIF_REPLAY") != "", guard: guard}
		guard.start()
		err := execute(&p, env, c)
		guard.stop()
		clearDir(dir)
		return env, err
	}

	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		b, err := os.ReadFile(rf)
		if err != nil {
			t.Fatalf("environment: %v", err)
		}
		var ev envelope
		if err := json.Unmarshal(b, &ev); err != nil {
			t.Fatalf("environment: %v", err)
		}
		if ev.Property != p.ID || ev.Part != p.Part {
			t.Skip("other part")
		}
		var c C
		if err := json.Unmarshal(ev.Case, &c); err != nil {
			t.Fatalf("environment: %v", err)
		}
		guard.onHang = func(msg string) {
			fmt.Printf("REPLAY-FAIL %s\n", msg)
			os.Exit(7)
		}
		for i := 0; i < envInt("VERIF_REPEAT", 1); i++ {
			if _, err := one(c); err != nil {
				if isEnv(err) {
					fmt.Printf("REPLAY-ENV %v\n", err)
					t.Fatalf("environment: %v", err)
				}
				fmt.Printf("REPLAY-FAIL %v\n", err)
				t.Fatalf("property %s violated: %v", p.ID, err)
			}
		}
		fmt.Printf("REPLAY-PASS\n")
		return
	}

	out := os.Getenv("VERIF_OUT")
	if out == "" {
		out = dir
	}
	shard, nshards := envInt("VERIF_SHARD", 0), envInt("VERIF_NSHARDS", 1)
	seed := envInt("VERIF_SEED", 1)
	w := p.Weight
	if w == 0 {
		w = 1
	}
	checks := int(float64(envInt("VERIF_CHECKS", 100))*w + 0.5)
	if checks < 1 {
		checks = 1
	}
	budget := time.Duration(envInt("VERIF_BUDGET_S", 3600)) * time.Second
	maxHashes := 200000

	st := &stats{Property: p.ID, Part: p.Part, Rule: p.Rule, Shard: shard, Classes: map[string]int{}}
	seen := map[uint64]struct{}{}
	start := time.Now()
	name := fmt.Sprintf("%s-%d", p.Part, shard)
	failFile := filepath.Join(out, "failure-"+name+".json")
	inflight := filepath.Join(out, "inflight-"+name+".json")
	defer func() {
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		st.WallS = time.Since(start).Seconds()
		b, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(out, "stats-"+name+".json"), b, 0o644)
		os.Remove(inflight)
	}()

	var envErr error
	failed := false
	guard.onHang = func(msg string) {
		if b, err := os.ReadFile(inflight); err == nil {
			var ev envelope
			if json.Unmarshal(b, &ev) == nil {
				ev.Error = msg
				fb, _ := json.MarshalIndent(ev, "", " ")
				os.WriteFile(failFile, fb, 0o644)
			}
		}
		fmt.Println(msg)
		os.Exit(7)
	}
	step := func(c C, enumerated bool) error {
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		b, _ := json.Marshal(envelope{Property: p.ID, Part: p.Part, Case: raw})
		os.WriteFile(inflight, b, 0o644)
		env, err := one(c)
		if err != nil && isEnv(err) {
			envErr = err
			return nil
		}
		if !failed {
			st.Evaluations++
			if enumerated {
				st.Enumerated++
			}
			for k, v := range env.classes {
				st.Classes[k] += v
			}
			if env.nontrivial {
				h := fnv.New64a()
				h.Write([]byte(p.Part))
				h.Write(raw)
				if _, dup := seen[h.Sum64()]; !dup && len(seen) < maxHashes {
					seen[h.Sum64()] = struct{}{}
					k := len(seen)
					if len(st.Samples) < 4 && len(raw) < 2500 && (k == 1 || k == 9 || k == 50 || k == 300) {
						st.Samples = append(st.Samples, raw)
					}
				}
			}
		}
		if err != nil {
			failed = true
			st.Failed = true
			fb, _ := json.MarshalIndent(envelope{Property: p.ID, Part: p.Part, Error: err.Error(), Case: raw}, "", " ")
			os.WriteFile(failFile, fb, 0o644)
		}
		return err
	}

	if p.Fixed != nil {
		for i, c := range p.Fixed() {
			if i%nshards != shard {
				continue
			}
			if err := step(c, true); err != nil {
				t.Fatalf("property %s violated (enumerated case): %v", p.ID, err)
			}
			if envErr != nil {
				st.EnvError = envErr.Error()
				t.Fatalf("%v", envErr)
			}
		}
	}
	if p.Gen == nil {
		return
	}
	flag.Set("rapid.seed", strconv.FormatUint(uint64(seed)*1000003+uint64(shard)*7919+1, 10))
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.nofailfile", "true")
	rapid.Check(t, func(rt *rapid.T) {
		if envErr != nil {
			return
		}
		if !failed && time.Since(start) > budget {
			st.Skipped++
			return
		}
		c := p.Gen(rt)
		if err := step(c, false); err != nil {
			rt.Fatalf("property %s violated", p.ID)
		}
	})
	if envErr != nil {
		st.EnvError = envErr.Error()
		t.Fatalf("%v", envErr)
	}
}

// Thorough tells whether this is a thorough run.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
