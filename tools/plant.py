#!/usr/bin/env python3
"""Write and confirm the planted changes of tools/seeds_*.py.

  plant.py make ID...     write seeded/ID from its definition
  plant.py confirm ID...  build, run the tests and the demonstration with and
                          without the change, in the scratch worktree
  plant.py catch ID...    run the check of the property against the change
The scratch worktree (/tmp/plant/wt) is made from /repo's HEAD when missing.
"""
import glob, importlib.util, json, os, re, subprocess, sys
WT = os.environ.get("PLANT_WT", "/tmp/plant/wt")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
           GOFLAGS="-mod=readonly", GOSUMDB="off")


def sh(cmd, cwd=WT, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop("env", ENV), text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def worktree():
    if not os.path.isdir(WT):
        os.makedirs(os.path.dirname(WT), exist_ok=True)
        r = sh(["git", "worktree", "add", "--detach", WT, "HEAD"], cwd="/repo")
        assert r.returncode == 0, r.stdout
    sh(["git", "checkout", "-q", "--", "."])
    head = sh(["git", "rev-parse", "HEAD"], cwd="/repo").stdout.strip()
    sh(["git", "checkout", "-q", "--detach", head])


DEMO_SH = """#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
export TMPDIR="$tmp"
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" PKG "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 RACE -timeout 250s -run '^TestZZDemo' ./PKG
"""

PREAMBLE = """
func demoWrite(t *testing.T, path string, enc uint32, target uint32, ids []uint64, values []int64) {
	t.Helper()
	w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(target))
	if err != nil {
		t.Fatal(err)
	}
	for len(ids) > 0 {
		err := w.WriteBlock(ids, values)
		if full, ok := err.(*col.BlockFullError); ok {
			ids, values = ids[full.ItemsWritten:], values[full.ItemsWritten:]
			continue
		}
		if err != nil {
			t.Fatal(err)
		}
		break
	}
	if err := w.FinalizeAndClose(); err != nil {
		t.Fatal(err)
	}
}

// demoBlocks writes every element of ids/values as one block.
func demoBlocks(t *testing.T, path string, enc uint32, ids [][]uint64, values [][]int64) {
	t.Helper()
	w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(1<<24))
	if err != nil {
		t.Fatal(err)
	}
	for i := range ids {
		if err := w.WriteBlock(ids[i], values[i]); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.FinalizeAndClose(); err != nil {
		t.Fatal(err)
	}
}

func demoOpen(t *testing.T, path string) *col.Reader {
	t.Helper()
	r, err := col.NewReader(path)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { r.Close() })
	return r
}

func demoRead(t *testing.T, r *col.Reader) (ids []uint64, values []int64) {
	t.Helper()
	for b := uint64(0); b < r.BlockCount(); b++ {
		i, v, err := r.GetPairs(b)
		if err != nil {
			t.Fatal(err)
		}
		ids, values = append(ids, i...), append(values, v...)
	}
	return ids, values
}
"""


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds_*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def make(s):
    worktree()
    for path, old, new, *nth in s["edits"]:  # nth: which of several places
        p = os.path.join(WT, path)
        parts = open(p).read().split(old)
        assert len(parts) > 1, (s["id"], path, "not found", old)
        assert nth or len(parts) == 2, (s["id"], path, "ambiguous", len(parts) - 1, old)
        n = nth[0] if nth else 1
        open(p, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
    bad = sh(["gofmt", "-l", "pkg"]).stdout
    diff = sh(["git", "diff"]).stdout
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    pkg = s.get("pkg", "pkg/col")
    demo = s.get("demo_sh") or DEMO_SH.replace("PKG", pkg).replace("RACE", "-race" if s.get("race") else "")
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if s.get("demo"):
        imports = sorted(set(["testing"] + s.get("imports", [])))
        imp = "".join('\t"%s"\n' % i for i in imports)
        body = s["demo"].strip() + "\n"
        pre = PREAMBLE
        head = "package %s_test\n\nimport (\n%s\n\t\"vibe-lsm/pkg/col\"\n%s)\n" % (
            os.path.basename(pkg), imp, "".join('\t"%s"\n' % i for i in s.get("imports3", [])))
        open(os.path.join(d, "demo_test.go"), "w").write(head + pre + "\n" + body)
        sh(["gofmt", "-w", os.path.join(d, "demo_test.go")])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "meta.json"), "a").write("\n")


def failing_tests():
    env = dict(ENV, GOMAXPROCS="8")
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], env=env)
    passed, failed = set(), set()
    for line in r.stdout.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Test"):
            if e["Action"] == "pass":
                passed.add(e["Package"] + "." + e["Test"])
            if e["Action"] == "fail":
                failed.add(e["Package"] + "." + e["Test"])
    return passed, failed


def confirm(id):
    d = os.path.join(ROOT, "seeded", id)
    worktree()
    clean = sh(["sh", os.path.join(d, "demo.sh")], timeout=300)
    r = sh(["git", "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        return "patch does not apply: " + r.stdout
    b = sh(["go", "build", "./..."])
    if b.returncode:
        return "does not build: " + b.stdout
    broken = sh(["sh", os.path.join(d, "demo.sh")], timeout=300)
    p, f = failing_tests()
    worktree()
    out = "passed=%d failed=%s demo clean=%d broken=%d" % (len(p), sorted(f), clean.returncode, broken.returncode)
    if clean.returncode or not broken.returncode or f or len(p) < 138:
        out = "BAD " + out + "\n--clean--\n" + clean.stdout[-1500:] + "\n--broken--\n" + broken.stdout[-1500:]
    return "ok " + out if not out.startswith("BAD") else out


def catch(id, prop=None, tier="quick"):
    d = os.path.join(ROOT, "seeded", id)
    prop = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    worktree()
    r = sh(["git", "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        return "patch does not apply: " + r.stdout
    env = dict(os.environ, VERIF_REPO=WT, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    r = sh([sys.executable, os.path.join(ROOT, "check.py"), prop, "--tier", tier], cwd=ROOT, env=env)
    worktree()
    lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    if r.returncode == 1 and lines:
        return "caught " + lines[0]
    return "MISSED rc=%d %s" % (r.returncode, r.stdout[-600:])


if __name__ == "__main__":
    seeds = load()
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(seeds)
    for id in ids:
        if cmd in ("make", "all"):
            make(seeds[id])
            print(id, "made", flush=True)
        if cmd in ("confirm", "all"):
            print(id, confirm(id), flush=True)
        if cmd in ("catch", "all"):
            print(id, catch(id), flush=True)
