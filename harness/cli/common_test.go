package cli

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	. "vibeverif/core"

	"vibe-lsm/pkg/col"
)

// result of one command.
type result struct {
	code int
	out  string
}

// run starts a built command in dir and waits for it.
func run(dir, bin string, args ...string) (result, error) {
	return runAs(dir, bin, append([]string{filepath.Join(os.Getenv("VERIF_BIN"), bin)}, args...))
}

// runLimited does so with writes beyond limit blocks of 512 bytes failing.
func runLimited(dir string, limit int, bin string, args ...string) (result, error) {
	script := fmt.Sprintf("ulimit -f %d\nexec \"$@\"\n", limit)
	return runAs(dir, bin, append([]string{"/bin/sh", "-c", script, "sh", filepath.Join(os.Getenv("VERIF_BIN"), bin)}, args...))
}

// procs is the number of processors the commands may use.
var procs = 4

func runAs(dir, bin string, args []string) (result, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	c.Dir = dir
	c.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", fmt.Sprintf("GOMAXPROCS=%d", procs), "TMPDIR=" + dir}
	c.WaitDelay = time.Second
	Waiting.Store(true)
	out, err := c.CombinedOutput()
	Waiting.Store(false)
	r := result{out: string(out)}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		return r, fmt.Errorf("%s did not end within 240 s", bin)
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
		if r.code < 0 {
			return r, &EnvError{Err: fmt.Errorf("%s was killed: %v", bin, err)}
		}
	case err != nil:
		return r, &EnvError{Err: err}
	}
	if strings.Contains(r.out, "panic: ") && strings.Contains(r.out, "goroutine ") {
		return r, fmt.Errorf("%s %s panicked:\n%.1500s", bin, strings.Join(args[1:], " "), r.out)
	}
	return r, nil
}

var pairLine = regexp.MustCompile(`(?m)^[ ]*(\d+)\t(-?\d+)[ ]*$`)

// dumped reads the pairs of a dump.
func dumped(out string) (p Pairs, err error) {
	for _, m := range pairLine.FindAllStringSubmatch(out, -1) {
		id, err := strconv.ParseUint(m[1], 10, 64)
		if err != nil {
			return p, err
		}
		v, err := strconv.ParseInt(m[2], 10, 64)
		if err != nil {
			return p, err
		}
		p.Add(id, v)
	}
	return p, nil
}

func number(out, name string) (string, error) {
	m := regexp.MustCompile(`(?m)^`+name+`:\s*(\S+)`).FindAllStringSubmatch(out, -1)
	if len(m) != 1 {
		return "", fmt.Errorf("%d lines %q in the output:\n%.600s", len(m), name, out)
	}
	return m[0][1], nil
}

// sameReport compares a printed aggregation with the true one.
func sameReport(out string, want col.AggregateResult) error {
	for _, f := range []struct {
		name string
		want string
	}{{"Count", fmt.Sprint(want.Count)}, {"Min", fmt.Sprint(want.Min)}, {"Max", fmt.Sprint(want.Max)}, {"Sum", fmt.Sprint(want.Sum)}} {
		got, err := number(out, f.name)
		if err != nil {
			return err
		}
		if got != f.want {
			return fmt.Errorf("%s is reported as %s, want %s", f.name, got, f.want)
		}
	}
	got, err := number(out, "Average")
	if err != nil {
		return err
	}
	avg, err := strconv.ParseFloat(got, 64)
	if err != nil {
		return fmt.Errorf("average %q", got)
	}
	i := strings.IndexByte(got, '.')
	if i < 0 || len(got)-i != 3 {
		return fmt.Errorf("average %q does not have two decimals", got)
	}
	if math.Abs(avg-want.Avg) > 0.00501+1e-12*math.Abs(want.Avg) {
		return fmt.Errorf("average is reported as %s, want %.2f", got, want.Avg)
	}
	return nil
}
