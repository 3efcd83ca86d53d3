#!/usr/bin/env python3
"""Decide one property: check.py ID [--replay FILE] [--keep]

Builds the harness against /repo's working tree, runs the property's
generators in parallel shards, merges what they covered into
evidence/<ID>.json and reports.  Exit 0: held on everything explored.
Exit 1: VIOLATION line on stdout.  Exit 2: the check could not be carried out.
"""
import glob, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # development override only
HARNESS = os.path.join(VERIF, "harness")
CPUS = max(2, min(8, os.cpu_count() or 8))

# id -> list of jobs.  pkg: test package; run: test function; checks: cases
# per shard (quick, thorough); budget: seconds (quick, thorough);
# build: plain, race or faults; level/technique live in MANIFEST.json.
J = lambda pkg, run, quick, thorough, **kw: dict(pkg=pkg, run=run, quick=quick, thorough=thorough, **kw)
# A few enumerated cases of gigabytes, one process, no limit on its memory.
L = lambda pkg, run, **kw: dict(pkg=pkg, run=run, quick=0, thorough=0, shards=1, alone=True, **kw)
CHECKS = {
    "C01": [J("props", "TestC01", 12000, 144000), L("props", "TestC01Large")],
    "C02": [J("props", "TestC02", 3200, 38400)],
    "C03": [J("props", "TestC03", 3200, 38400)],
    "C04": [J("props", "TestC04", 12000, 144000)],
    "C05": [J("props", "TestC05", 50000, 600000), L("props", "TestC05Large")],
    "C06": [J("props", "TestC06", 36000, 432000), L("props", "TestC06Large")],
    "C07": [J("props", "TestC07", 20000, 240000)],
    "C08": [J("props", "TestC08", 12000, 144000)],
    "C09": [J("props", "TestC09", 20000, 240000)],
    "C10": [J("props", "TestC10", 32000, 384000), L("props", "TestC10Huge", build="bigset")],
    "C11": [J("props", "TestC11", 26000, 312000)],
    "C12": [J("props", "TestC12(Multi)?", 480, 5760, build="race", shards=5), J("props", "TestC12(Multi)?", 1600, 19200, shards=3)],
    "C13": [J("props", "TestC13(Simple)?", 8000, 96000), L("props", "TestC13Large")],
    "C14": [J("props", "TestC14", 9600, 115200)],
    "C15": [J("props", "TestC15(Unsupported)?", 40000, 480000)],
    "C16": [J("faults", "TestC16", 2000, 24000, build="faults")],
    "C17": [J("faults", "TestC17", 120, 2500, build="faults")],
    "C18": [J("faults", "TestC18", 250, 5000, build="faults")],
    "C19": [J("props", "TestC19", 36000, 432000)],
    "C20": [J("faults", "TestC20", 36000, 432000, build="faults")],
    "C21": [J("props", "TestC21", 8000, 96000)],
    "C22": [J("cli", "TestC22", 480, 5760, bins=["vibecol"])],
    "C23": [J("cli", "TestC23(Aggregate)?", 80, 800, bins=["loadtest"])],
    "C24": [J("props", "TestC24(Multi)?", 9000, 108000)],
    "C25": [J("props", "TestC25", 9000, 108000)],
    "C26": [J("faults", "TestC26", 6000, 72000, build="faults")],
    "C27": [J("cli", "TestC27", 250, 3000, bins=["write_example", "read_example"])],
    "C28": [J("faults", "TestC28(Read)?", 1500, 18000, build="faults")],
}
# Coverage-guided search over the same generators, thorough runs only.
F = lambda pkg, name, **kw: dict(pkg=pkg, run="Test" + name.replace("bytes", ""), fuzz=name, quick=0, thorough=0, shards=1, **kw)
for _id in CHECKS:
    if _id not in ("C12", "C22", "C23", "C27"):
        _faults = _id in ("C16", "C17", "C18", "C20", "C26", "C28")
        CHECKS[_id].append(F("faults" if _faults else "props", _id, build="faults" if _faults else "plain"))
CHECKS["C19"].append(F("props", "C19bytes", build="plain"))
FUZZTIME = 240
BUDGET = {"quick": 60, "thorough": 420}
HARD = {"quick": 600, "thorough": 840}  # seconds for all runs of a check


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("VERIF_") or k.startswith("GORACE") or k in ("GOFLAGS", "GODEBUG"):
            del env[k]
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly", GOSUMDB="off")
    env.setdefault("HOME", "/root")
    return env


def run_build(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def modfile(work, kind):
    """The harness's go.mod, with the repository replaced when overridden."""
    if REPO == "/repo" and kind != "bigset":
        return []
    with open(os.path.join(HARNESS, "go.mod")) as f:
        text = f.read().replace("=> /repo", "=> " + REPO)
    sub = os.path.join(work, "mod-" + kind)
    os.makedirs(sub, exist_ok=True)
    if kind == "bigset":
        text += "\nreplace %s => %s\n" % (SROAR, big_containers(sub))
    mf = os.path.join(sub, "go.mod")
    with open(mf, "w") as f:
        f.write(text)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(sub, "go.sum"))
    return ["-modfile=" + mf]


SROAR = "github.com/weaviate/sroar"


def big_containers(sub):
    """A copy of the bitmap package whose containers start at 4 KB, so that an
    id bitmap beyond 4 GB takes seconds and not an hour to fill."""
    p = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", SROAR], cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise CheckError("cannot find %s: %s" % (SROAR, p.stderr))
    out = os.path.join(sub, "sroar")
    if not os.path.isdir(out):
        os.makedirs(out)
        for f in glob.glob(os.path.join(p.stdout.strip(), "*")):
            if os.path.isfile(f) and not f.endswith("_test.go"):
                with open(f, "rb") as src:
                    text = src.read()
                for name, old, new in ((b"container.go", b"minContainerSize = 64 ", b"minContainerSize = 2048 "),
                                       (b"bitmap.go", b"return NewBitmapWith(2)", b"return NewBitmapWith(1 << 21)")):  # room for the keys
                    if os.fsencode(os.path.basename(f)) == name:
                        if old not in text:
                            raise CheckError("the bitmap package has changed")
                        text = text.replace(old, new)
                with open(os.path.join(out, os.path.basename(f)), "wb") as dst:
                    dst.write(text)
    return out


def build(job, work):
    kind = job.get("build", "plain")
    fuzz = job.get("fuzz") is not None
    out = os.path.join(work, "%s-%s%s.test" % (job["pkg"], kind, "-fuzz" if fuzz else ""))
    if os.path.exists(out):
        return out
    mf = modfile(work, kind)
    cmd = ["go", "test", "-c", "-o", out] + mf
    if kind == "race":
        cmd += ["-race"]
    if fuzz:
        cmd += ["-fuzz=FuzzProp"]
    if kind == "faults":
        ov = os.path.join(work, "overlay")
        if not os.path.isdir(ov):
            os.makedirs(ov)
            run_build(["go", "run"] + mf + ["./mkoverlay", "-dir", os.path.join(REPO, "pkg", "col"), "-out", ov], HARNESS)
        cmd += ["-overlay", os.path.join(ov, "overlay.json")]
    run_build(cmd + ["./" + job["pkg"]], HARNESS)
    for b in job.get("bins", []):
        run_build(["go", "build", "-o", os.path.join(work, b), "./cmd/" + b], REPO)
    return out


def limits(job):
    os.setsid()
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if job.get("build") != "race" and not job.get("alone"):  # shadow memory would count
        resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))


def shard_env(job, work, out, shard, nshards, tier, seed):
    env = go_env()
    env.update(VERIF_OUT=out, VERIF_SHARD=str(shard), VERIF_NSHARDS=str(nshards), VERIF_SEED=str(seed), VERIF_TIER=tier,
               VERIF_CHECKS=str(job[tier]), VERIF_BUDGET_S=str(BUDGET[tier]), VERIF_BIN=work, GOTRACEBACK="all", VERIF_SCRATCH=os.path.join(work, "scratch"))
    if job.get("build") == "race":
        # reports go to the log; the harness notices them after each case
        env["GORACE"] = "halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=66 log_path=" + os.path.join(out, "race")
    else:
        env["GOMAXPROCS"] = "4"
    return env


def start(binary, job, env, log):
    cmd = [binary, "-test.run", "^%s$" % job["run"], "-test.timeout", "0", "-test.count", "1"]
    if job.get("fuzz") and not env.get("VERIF_REPLAY"):
        env["VERIF_FUZZ"] = job["fuzz"]
        cmd = [binary, "-test.run", "^$", "-test.fuzz", "^FuzzProp$", "-test.fuzztime", "%ds" % FUZZTIME, "-test.fuzzminimizetime", "40x",
               "-test.fuzzcachedir", os.path.join(env["VERIF_OUT"], "corpus"), "-test.parallel", "4"]
    elif not env.get("VERIF_REPLAY"):
        cmd += ["-rapid.shrinktime", "15s"]
    f = open(log, "w")
    p = subprocess.Popen(cmd, cwd=env["VERIF_SCRATCH"], env=env, stdout=f, stderr=subprocess.STDOUT, preexec_fn=lambda: limits(job))
    f.close()
    return p


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
    except OSError:
        return ""
    return s[-n:] if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


def died_of_the_code(text):
    """Did the Go runtime end the process because of what the code did?"""
    if "environment:" in text or "cannot allocate memory" in text and "runtime: out of memory" not in text and "fatal error" not in text:
        return False
    return "panic: " in text or "fatal error: " in text or "SIGSEGV" in text or "unexpected fault address" in text


def replay_case(binary, job, work, casefile, repeat, tier, seed, limit=300):
    """Run one saved case in a fresh process: (verdict, text)."""
    out = tempfile.mkdtemp(prefix="replay-", dir=work)
    env = shard_env(job, work, out, 0, 1, tier, seed)
    env["VERIF_REPLAY"], env["VERIF_REPEAT"] = casefile, str(repeat)
    log = os.path.join(out, "log")
    p = start(binary, job, env, log)
    try:
        rc = p.wait(limit)
    except subprocess.TimeoutExpired:
        kill(p)
        p.wait()
        return "timeout", tail(log)
    text = tail(log, 6000)
    if "REPLAY-FAIL" in text:
        return "fail", text
    if "REPLAY-ENV" in text:
        return "env", text
    if "REPLAY-PASS" in text and rc in (0, 66):
        return "pass", text
    if rc != 0 and died_of_the_code(text):
        return "fail", text
    return "env", text


def load(path):
    with open(path) as f:
        return json.load(f)


def known_findings(pid):
    """Lines 'finding: property=<id> key=<substring> <what fails>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key, _, what = rest.partition(" ")
                out.append((key[4:], what))
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        return setup()
    if not args or args[0] not in CHECKS:
        print("usage: check.py ID [--replay FILE]; ids:", " ".join(CHECKS))
        return 2
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
    os.makedirs(os.path.join(work, "scratch"))
    procs = []
    try:
        if "--replay" in args:
            return replay(pid, os.path.abspath(args[args.index("--replay") + 1]), work, tier, seed)
        return check(pid, work, tier, seed, t0, procs)
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e))
        return 2
    finally:
        for p in procs:
            kill(p)
        shutil.rmtree(work, ignore_errors=True)


def replay(pid, casefile, work, tier, seed):
    worst = 0
    for job in jobs_for(pid, "quick"):
        binary = build(job, work)
        verdict, text = replay_case(binary, job, work, casefile, 20 if pid in ("C08", "C12", "C21") else 1, tier, seed)
        print(text)
        if verdict == "fail":
            print("VIOLATION property=%s replay=%s" % (pid, casefile))
            return 1
        if verdict != "pass":
            worst = 2
    if worst == 0:
        print("REPLAY property=%s: the property held" % pid)
    return worst


def jobs_for(pid, tier):
    return [j for j in CHECKS[pid] if tier == "thorough" or not j.get("fuzz")]


def check(pid, work, tier, seed, t0, procs):
    jobs = jobs_for(pid, tier)
    runs = []
    deadline = t0 + HARD[tier]
    binaries = [build(job, work) for job in jobs]
    shard = 0
    total = sum(j.get("shards", CPUS) for j in jobs if not (j.get("alone") or j.get("fuzz")))
    for ji, job in enumerate(jobs):
        for _ in range(job.get("shards", CPUS)):
            out = os.path.join(work, "out%d" % shard)
            os.makedirs(out)
            env = shard_env(job, work, out, 0 if job.get("alone") else shard, 1 if job.get("alone") else total, tier, seed)
            log = os.path.join(out, "log")
            p = start(binaries[ji], job, env, log)
            procs.append(p)
            runs.append((job, binaries[ji], out, log, p))
            shard += 1
    errors, found = [], []
    for job, binary, out, log, p in runs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            kill(p)
            p.wait()
            rc = None
        fails = sorted(glob.glob(os.path.join(out, "failure-*.json")), key=os.path.getsize)
        if fails:
            found.append((job, binary, fails[0], None))
            continue
        if rc == 0:
            continue
        text = tail(log)
        inflight = sorted(glob.glob(os.path.join(out, "inflight-*.json")))
        if rc is not None and inflight and died_of_the_code(text):
            found.append((job, binary, inflight[-1], text))
        elif rc is None:
            errors.append("a shard did not finish in time\n" + text[-1500:])
        else:
            errors.append("a shard ended with status %s\n%s" % (rc, text[-2500:]))

    # what was covered
    stats = []
    for _, _, out, _, _ in runs:
        for s in glob.glob(os.path.join(out, "stats-*.json")):
            stats.append(load(s))
    violation = None
    known = known_findings(pid)
    hit = {}
    for job, binary, path, crash in found:
        case = load(path)
        if crash is not None:
            verdict, text = replay_case(binary, job, work, path, 5, tier, seed)
            for _ in range(4):
                if verdict == "fail":
                    break
                verdict, text = replay_case(binary, job, work, path, 20, tier, seed)
            if verdict != "fail" and "vibe-lsm/" not in crash:
                errors.append("a shard died and its case does not reproduce it\n" + crash)
                continue
            case["error"] = "the process died: " + (text if verdict == "fail" else crash)
            case["reproduced"] = verdict == "fail"
        err = case.get("error", "")
        k = next((k for k in known if k[0] in err), None)
        if k:
            hit[k] = True
            continue
        # prefer the smallest reproduction
        if violation is None or len(json.dumps(case["case"])) < len(json.dumps(violation[2]["case"])):
            violation = (job, binary, case)
    replay_path = None
    if violation:
        job, binary, case = violation
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, "%s-seed%d-%s.json" % (pid, seed, tier))
        with open(replay_path, "w") as f:
            json.dump(case, f, indent=1)
        if "reproduced" not in case:
            verdict, _ = replay_case(binary, job, work, replay_path, 20 if pid in ("C08", "C12", "C21") else 1, tier, seed)
            case["reproduced"] = verdict == "fail"
            with open(replay_path, "w") as f:
                json.dump(case, f, indent=1)
            if case.get("error", "").startswith("no answer after") and verdict == "pass":
                # slow, but it does end
                errors.append("a case took long and does not when repeated\n" + case["error"][:300])
                violation = None
    evidence(pid, tier, seed, stats, time.time() - t0, 1 if violation else 0, errors, runs, work)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    if violation:
        print("property %s is violated:\n%s" % (pid, case.get("error", "")[:3000]))
        print("case: %s" % json.dumps(case["case"])[:1500])
        print("reproduced in a fresh process: %s" % case["reproduced"])
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        return 1
    if errors:
        raise CheckError("; ".join(errors[:2]))
    if not stats or sum(s["evaluations"] for s in stats) == 0:
        raise CheckError("nothing was evaluated")
    ev = sum(s["evaluations"] for s in stats)
    print("property %s held on %d cases (%.1f s)" % (pid, ev, time.time() - t0))
    return 0


def setup():
    """Build everything once: warms the build cache and shows it compiles."""
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for pid in CHECKS:
            for job in jobs_for(pid, "quick"):
                build(job, work)
        print("setup: all harnesses build")
        return 0
    except CheckError as e:
        print("SETUP-ERROR %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def manifest_level(pid):
    try:
        for c in load(os.path.join(VERIF, "MANIFEST.json"))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "exploration"


def evidence(pid, tier, seed, stats, wall, violations, errors, runs, work):
    hashes, classes, samples, rules = set(), {}, [], {}
    for s in stats:
        hashes.update(s.get("hashes") or [])
        for k, v in (s.get("classes") or {}).items():
            classes[k] = classes.get(k, 0) + v
        for x in s.get("samples") or []:
            samples.append({"part": s["part"], "case": x} if s["part"] else x)
        rules[s["part"]] = s["rule"]
    samples.sort(key=lambda x: len(json.dumps(x)))
    keep, size = [], 0
    for x in samples[len(samples) // 3:] + samples[:len(samples) // 3]:
        n = len(json.dumps(x))
        if len(keep) < 6 and size + n < 15000:
            keep.append(x)
            size += n
    if not keep:
        keep = samples[:1]
    cov = {
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": len(hashes),
        "rule": " | ".join((k + ": " if k else "") + v for k, v in sorted(rules.items())),
        "samples": keep,
        "enumerated": sum(s["enumerated"] for s in stats),
        "skipped_after_budget": sum(s["skipped_after_budget"] for s in stats),
        "classes": dict(sorted(classes.items(), key=lambda kv: -kv[1])[:60]),
        "shards": len(runs),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": manifest_level(pid), "coverage": cov,
          "assumptions": ASSUME.get(pid, []) + ASSUME["*"], "wall_s": round(wall, 2), "violations": violations}
    if errors:
        cov["errors"] = [e[:500] for e in errors[:3]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


ASSUME = {
    "*": ["sampling: what was not generated was not decided", "the Go toolchain, the kernel's file system and sroar's Set/Contains/Or behave as documented"],
    "C12": ["interleavings are those the Go scheduler produced; the race detector reports only races on executed paths"],
    "C16": ["the process stops, the machine does not: completed writes stay in order"],
    "C19": ["the serialized id bitmap is not damaged (sroar.FromBuffer trusts it)"],
}

if __name__ == "__main__":
    sys.exit(main())
