#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py ID                 tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
  check.py --replay FILE      runs one recorded failing case again
  check.py --setup            builds the harness
  check.py --list             the checks

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not decide.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, CONFIGS  # noqa: E402

T0 = time.time()


class CheckError(Exception):
    """The check could not decide (exit 2)."""


def base_env():
    env = {
        "HOME": os.environ.get("HOME") or "/root",
        "PATH": os.environ.get("PATH") or "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GO111MODULE": "on", "GOWORK": "off",
        "GOSUMDB": "off", "GONOSUMDB": "*", "GOFLAGS": "-mod=readonly", "LC_ALL": "C",
    }
    for k in ("GOCACHE", "GOMODCACHE", "GOPATH", "TMPDIR", "GOROOT"):
        if os.environ.get(k):
            env[k] = os.environ[k]
    return env


class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.lock = threading.Lock()
        self.done = {}
        self.notes = []
        self.cpu_overlay = os.path.isdir(os.path.join(REPO, "dsp/internal/cpu"))

    def overlay(self, cpu):
        path = os.path.join(self.scratch, "overlay-%d.json" % cpu)
        rep = {}
        if not os.path.exists(os.path.join(REPO, "go.mod")):
            rep[os.path.join(REPO, "go.mod")] = os.path.join(HARNESS, "overlay/go.mod")
        if cpu:
            rep[os.path.join(REPO, "dsp/internal/cpu/zz_verif_init.go")] = os.path.join(HARNESS, "overlay/cpu_init.go")
        if not os.path.exists(path):
            with open(path, "w") as f:
                json.dump({"Replace": rep}, f)
        return path

    def run(self, args, env, cwd=HARNESS):
        try:
            p = subprocess.run(args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            raise CheckError("build timed out: " + " ".join(args))
        return p.returncode, p.stdout

    def build(self, goarch="amd64", race=False, pkg="./props", kind="test", tags="", cwd=HARNESS):
        """Builds and returns (path, None) or (None, compiler output)."""
        key = (goarch, race, pkg, kind, tags)
        with self.lock:
            if key not in self.done:
                self.done[key] = [threading.Lock(), None]
        slot = self.done[key]
        with slot[0]:
            if slot[1] is None:
                slot[1] = self._build(goarch, race, pkg, kind, tags, cwd)
            return slot[1]

    def _build(self, goarch, race, pkg, kind, tags, cwd):
        env = base_env()
        if "/" in goarch:
            env["GOOS"], goarch = goarch.split("/")
        env["GOARCH"] = goarch
        env["CGO_ENABLED"] = "1" if race else "0"
        if goarch == "arm":
            env["GOARM"] = "7"
        out = os.path.join(self.scratch, "bin-%s-%s-%s%s%s%s" % (re.sub(r"\W+", "_", pkg), kind, env.get("GOOS", ""), goarch, "-race" if race else "", "-" + tags if tags else ""))
        msg = ""
        for cpu in ((1, 0) if self.cpu_overlay else (0,)):
            args = ["go", "test", "-c", "-vet=off"] if kind == "test" else ["go", "build"]
            args += ["-buildvcs=false", "-overlay", self.overlay(cpu), "-o", out]
            if race:
                args.append("-race")
            if tags:
                args += ["-tags", tags]
            args.append(pkg)
            rc, msg = self.run(args, env, cwd)
            if rc == 0 and os.path.exists(out):
                if not cpu and self.cpu_overlay:
                    self.notes.append("CPU feature overlay did not build; features could not be varied")
                return out, None
        return None, msg


def job_seed(seed, prop, key):
    h = hashlib.sha256(("%s/%s/%s" % (seed, prop, key)).encode()).digest()
    return (int.from_bytes(h[:8], "big") >> 2) | 1


class Job:
    def __init__(self, prop, spec, config, shard, seed, checks, tier):
        self.prop, self.spec, self.config, self.shard, self.tier = prop, spec, config, shard, tier
        self.checks = max(1, int(checks * CONFIGS[config].get("scale", 1)))
        key = "shard%d" % shard if spec.get("same_seed") else "%s/shard%d" % (config, shard)
        self.seed = job_seed(seed, prop, key)
        self.name = "%s-%s-%d" % (prop, config, shard)
        self.test = spec.get("test", "^Test%s$" % prop)


def run_binary(job, path, cwd, stats, extra_env, seed=None, test=None, failfile=None, checks=None, limit=None):
    os.makedirs(cwd, exist_ok=True)
    cfg = CONFIGS[job.config]
    env = base_env()
    env.update(extra_env)
    env["VERIF_STATS"] = stats
    env["VERIF_CHECKS"] = str(job.checks if checks is None else checks)
    env["VERIF_TIER"] = job.tier
    env["VERIF_CONFIG"] = job.config
    if cfg.get("cpu") is not None:
        env["VERIF_CPU"] = cfg["cpu"]
    env["GOTRACEBACK"] = "all"
    env["GOMAXPROCS"] = str(job.spec.get("procs", 2))
    if cfg.get("race"):
        env["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
        env["GOMAXPROCS"] = "4"
    args = [path, "-test.run", test or job.test, "-test.timeout=0", "-test.count=1",
            "-rapid.seed=%d" % (job.seed if seed is None else seed), "-rapid.shrinktime=%s" % job.spec.get("shrink", "8s"), "-test.v=true"]
    if failfile:
        args.append("-rapid.failfile=" + failfile)
    cpu = limit or job.spec.get("cpu_limit", 200 if job.tier == "quick" else 3000)
    mem = "" if cfg.get("race") else "ulimit -v 12582912; "
    sh = "ulimit -t %d; ulimit -c 0; %sexec \"$@\"" % (cpu, mem)
    t = time.time()
    log = os.path.join(cwd, "log")
    with open(log, "wb") as f:
        p = subprocess.Popen(["/bin/sh", "-c", sh, "sh"] + args, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        with PROCS_LOCK:
            PROCS.add(p.pid)
        try:
            _, status, ru = os.wait4(p.pid, 0)
        finally:
            with PROCS_LOCK:
                PROCS.discard(p.pid)
            try:  # children the tests started
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        p.returncode = os.waitstatus_to_exitcode(status)
    with open(log, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(0)
        out = f.read(400000)
        if size > 800000:
            f.seek(size - 400000)
            out += b"\n...\n" + f.read()
        else:
            out += f.read()
    return {"rc": p.returncode, "out": out.decode("utf-8", "replace"), "cpu": ru.ru_utime + ru.ru_stime, "rss": ru.ru_maxrss, "wall": time.time() - t, "cpu_limit": cpu}


PROCS = set()
PROCS_LOCK = threading.Lock()


def kill_all():
    with PROCS_LOCK:
        for pid in list(PROCS):
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass


def classify(r):
    """('ok'|'fail'|'crash'|'hang'|'error', detail)"""
    out = r["out"]
    if "VERIF-ERROR" in out:
        return "error", re.search(r"VERIF-ERROR.*", out).group(0)
    if r["rc"] == 0:
        return "ok", ""
    if r["rc"] < 0 and r["cpu"] > 0.95 * r["cpu_limit"]:
        return "hang", "the process used up its CPU limit of %d s" % r["cpu_limit"]
    if "VERIF-HANG" in out:
        return "hang", re.search(r"VERIF-HANG.*", out).group(0)
    if "[rapid] flaky test" in out:
        return "flaky", ""
    if "[rapid] failed after" in out or "[rapid] panic after" in out or "VERIF-FAIL" in out:
        return "fail", ""
    if "WARNING: DATA RACE" in out:
        return "crash", "data race"
    if "[rapid]" in out and "unable to generate" in out or "[rapid] only generated" in out:
        return "error", "generator rejected too many cases"
    if re.search(r"out of memory|cannot allocate memory", out):
        return ("crash", "runaway memory use") if r["rss"] > 4 << 20 else ("error", "out of memory")
    if r["rc"] == -9:
        return "error", "killed"
    if re.search(r"^(panic:|fatal error:|unexpected fault address|SIG[A-Z]+:)|\[signal SIG", out, re.M) or r["rc"] in (-11, -7, -4, -8):
        return "crash", "the process crashed"
    return "error", "unexpected exit status %s" % r["rc"]


def failing_tests(out):
    """Names of the innermost failing tests."""
    names = re.findall(r"^\s*--- FAIL: (\S+)", out, re.M)
    return [n for n in names if not any(o.startswith(n + "/") for o in names)]


def exact(test):
    return "/".join("^%s$" % re.escape(p) for p in test.split("/"))


def write_replay(prop, doc):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(doc, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(body)
    return path


def tail(text, n):
    return text if len(text) <= n else "...\n" + text[-n:]


def head_of_failure(out):
    """The part of a rapid log that describes the failing case."""
    i = out.find("[rapid]")
    return out[max(0, i - 200):i + 6000] if i >= 0 else tail(out, 6000)


def confirm(job, path, scratch, first, extra_env):
    """Runs a failing job again from its recorded case.  Returns a replay document or None."""
    kind, detail = classify(first)
    doc = {"property": job.prop, "config": job.config, "tier": job.tier, "kind": kind, "detail": detail,
           "seed": job.seed, "checks": job.checks, "test": job.test, "log": head_of_failure(first["out"])}
    if kind == "fail":
        for t in failing_tests(first["out"]):
            ffs = []
            for root, _, files in os.walk(os.path.join(scratch, job.name, "testdata")):
                ffs += [os.path.join(root, f) for f in files if f.endswith(".fail")]
            flat = re.sub(r"[^A-Za-z0-9_-]", "_", t)
            ffs = [f for f in ffs if os.path.basename(os.path.dirname(f)) == flat] or [f for f in ffs if flat in f]
            for ff in ffs[:1]:
                r = run_binary(job, path, os.path.join(scratch, job.name + "-confirm"), os.path.join(scratch, job.name + ".c"), extra_env, test=exact(t), failfile=ff, limit=300)
                if classify(r)[0] in ("fail", "crash", "hang"):
                    with open(ff, errors="replace") as f:
                        doc.update(test=exact(t), failfile=f.read(), log=head_of_failure(r["out"]))
                    return doc
    # the whole job again, same seed
    r = run_binary(job, path, os.path.join(scratch, job.name + "-again"), os.path.join(scratch, job.name + ".a"), extra_env)
    k2, d2 = classify(r)
    if k2 in ("fail", "crash", "hang"):
        doc["log"] = head_of_failure(r["out"]) if k2 == "fail" else tail(r["out"], 8000) if kind == "fail" else doc["log"]
        return doc
    if k2 == "flaky" and not timing(r):
        return doc
    return None


def timing(r):
    """Whether a failure is (or may be) one of running into a time limit."""
    return "VERIF-HANG" in r["out"] or "VERIF-SLOW" in r["out"]


def merge_hashes(paths):
    seen = set()
    for p in paths:
        if os.path.exists(p):
            with open(p, "rb") as f:
                b = f.read()
            seen.update(b[i:i + 8] for i in range(0, len(b), 8))
    return len(seen)


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def run_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = CHECKS[prop]
    wall_limit = 780 if tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    timer = threading.Timer(wall_limit, kill_all)
    timer.daemon = True
    timer.start()
    try:
        return decide(prop, spec, tier, seed, scratch)
    except CheckError as e:
        print("%s: cannot decide: %s" % (prop, e))
        return 2
    finally:
        timer.cancel()
        kill_all()
        shutil.rmtree(scratch, ignore_errors=True)


def programs(b, spec):
    """Extra executables of the repository a check runs: {env name: path}."""
    env = {}
    for name, p in spec.get("programs", {}).items():
        path, msg = b.build(goarch=p.get("goarch", "amd64"), pkg=p["pkg"], kind="build", cwd=p.get("cwd", HARNESS).replace("$REPO", REPO), tags=p.get("tags", ""), race=p.get("race", False))
        if path is None and p.get("optional"):
            b.notes.append("no build of %s for %s: %s" % (p["pkg"], p.get("goarch"), tail(msg, 300)))
            continue
        if path is None:
            raise CheckError("building %s failed:\n%s" % (p["pkg"], tail(msg, 4000)))
        env[name] = path
    return env


def decide(prop, spec, tier, seed, scratch):
    b = Builder(scratch)
    shards = spec.get("shards", 1) if tier == "quick" else spec.get("thorough_shards", 4 * spec.get("shards", 1))
    checks = spec["quick"] if tier == "quick" else spec.get("thorough", 10 * spec["quick"])
    jobs = [Job(prop, spec, c, s, seed, checks, tier) for c in spec["configs"] for s in range(shards)]
    seen = set()
    for j in jobs:
        k = (j.config, j.seed)
        assert k not in seen
        seen.add(k)
    notes, violations = [], []

    # build everything the jobs need
    archs = {(CONFIGS[c]["goarch"], bool(CONFIGS[c].get("race"))) for c in spec["configs"]}
    bins = {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = {a: ex.submit(b.build, a[0], a[1]) for a in archs}
        links = {a: ex.submit(b.build, a, False, "./linkall", "build") for a in spec.get("link", [])}
        for a, f in futs.items():
            bins[a] = f.result()
        links = {a: f.result() for a, f in links.items()}
    if bins.get(("amd64", False), ("", None))[0] is None:
        raise CheckError("the harness does not build:\n" + tail(bins[("amd64", False)][1], 4000))
    for a, (path, msg) in bins.items():
        if path is None:
            notes.append("no build for %s race=%s; its configurations were skipped: %s" % (a[0], a[1], tail(msg, 300)))
    link_ok = 0
    for a, (path, msg) in links.items():
        if path is None:
            doc = {"property": prop, "kind": "link", "goarch": a, "log": tail(msg, 6000), "detail": "a program using every exported routine does not link on " + a}
            violations.append(doc)
        else:
            link_ok += 1
    extra_env = programs(b, spec)

    results = {}

    def work(job):
        cfg = CONFIGS[job.config]
        path, _ = bins[(cfg["goarch"], bool(cfg.get("race")))]
        if path is None:
            return job, None, None
        stats = os.path.join(scratch, job.name + ".stats")
        r = run_binary(job, path, os.path.join(scratch, job.name), stats, extra_env)
        kind, detail = classify(r)
        doc = None
        if kind in ("fail", "crash", "hang", "flaky"):
            doc = confirm(job, path, scratch, r, extra_env)
            if doc is None and kind == "flaky":
                doc = confirm(job, path, scratch, r, extra_env)
            if doc is None and timing(r):
                # a time limit, and all is well when the same cases are run again: the machine was busy
                b.notes.append("%s: a case ran into a time limit, but passed when repeated:\n%s" % (job.name, head_of_failure(r["out"])[:1500]))
                return job, ("ok", "", None, os.path.join(scratch, job.name + ".a")), r
            if doc is None:
                kind, detail = "error", "a failure did not reproduce:\n" + head_of_failure(r["out"])
        elif kind == "error":
            detail += "\n" + tail(r["out"], 3000)
        return job, (kind, detail, doc, stats), r

    errors = []
    with concurrent.futures.ThreadPoolExecutor(spec.get("parallel", os.cpu_count() or 4)) as ex:
        for job, res, r in ex.map(work, jobs):
            if res is None:
                continue
            results[job.name] = (job, res, r)
            kind, detail, doc, _ = res
            if doc:
                violations.append(doc)
            elif kind == "error":
                errors.append("%s: %s" % (job.name, detail))

    # evidence
    evals, labels, samples, paths, per_prop = 0, {}, [], [], {}
    for name, (job, res, r) in results.items():
        stats = res[3]
        if not os.path.exists(stats):
            continue
        paths.append(stats + ".hashes")
        with open(stats) as f:
            st = json.load(f)["props"]
        for pn, s in sorted(st.items()):
            evals += s["evaluations"]
            q = per_prop.setdefault(pn, {"evaluations": 0, "nontrivial": 0})
            q["evaluations"] += s["evaluations"]
            q["nontrivial"] += s["nontrivial"]
            for l, n in s["labels"].items():
                labels[l] = labels.get(l, 0) + n
            for x in (s["samples"] or []):
                samples.append("[%s] %s" % (job.config, x))
    evals += link_ok
    distinct = merge_hashes(paths)

    # outputs must be the same in every configuration (same seeds, hence same cases)
    if spec.get("digests"):
        groups = {}
        for name, (job, res, r) in results.items():
            if res[0] == "ok":
                with open(res[3] + ".digests", "rb") as f:
                    groups.setdefault(job.shard, []).append((job, f.read()))
        compared = 0
        for shard, lst in sorted(groups.items()):
            ref_job, ref = lst[0]
            for job, d in lst[1:]:
                compared += 1
                if d != ref:
                    i = next((i for i in range(min(len(d), len(ref))) if d[i] != ref[i]), 0) // 8
                    violations.append({"property": prop, "kind": "digest", "configs": [ref_job.config, job.config], "seed": job.seed, "checks": job.checks, "tier": tier,
                                       "test": job.test, "index": i, "detail": "configurations %s and %s give different results for case digest %d" % (ref_job.config, job.config, i)})
        labels["configuration pairs compared"] = compared

    if not samples:
        samples = ["(no case completed)"]
    step = max(1, len(samples) // 12)
    coverage = {
        "evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples[::step][:14],
        "labels": dict(sorted(labels.items())), "per_generator": per_prop, "configurations": sorted({j.config for j in jobs}), "jobs": len(results),
    }
    if spec.get("link"):
        coverage["architectures_linked"] = link_ok
    if notes or b.notes:
        coverage["notes"] = notes + b.notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": coverage,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    for key, text in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if violations:
        for doc in violations[:3]:
            path = write_replay(prop, doc)
            print(doc.get("detail", ""))
            print(tail(doc.get("log", ""), 2500))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("%s: cannot decide:\n%s" % (prop, "\n".join(errors[:3])))
        return 2
    if evals < spec.get("min_evaluations", 1):
        print("%s: only %d cases ran" % (prop, evals))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (prop, evals, distinct, time.time() - T0))
    return 0


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    prop = doc["property"]
    spec = CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = Builder(scratch)
        if doc["kind"] == "link":
            p, msg = b.build(doc["goarch"], False, "./linkall", "build")
            print(msg or "links")
            bad = p is None
        elif doc["kind"] == "digest":
            ds = []
            for c in doc["configs"]:
                job = Job(prop, spec, c, 0, 1, doc["checks"], doc["tier"])
                job.seed, job.checks = doc["seed"], doc["checks"]
                p, msg = b.build(CONFIGS[c]["goarch"], bool(CONFIGS[c].get("race")))
                if p is None:
                    raise CheckError(msg)
                st = os.path.join(scratch, c + ".stats")
                r = run_binary(job, p, os.path.join(scratch, c), st, programs(b, spec))
                ds.append((classify(r)[0], open(st + ".digests", "rb").read() if os.path.exists(st + ".digests") else b""))
            bad = any(k != "ok" for k, _ in ds) or ds[0][1] != ds[1][1]
        else:
            c = doc["config"]
            job = Job(prop, spec, c, 0, 1, doc["checks"], doc["tier"])
            job.seed, job.checks = doc["seed"], doc["checks"]
            p, msg = b.build(CONFIGS[c]["goarch"], bool(CONFIGS[c].get("race")))
            if p is None:
                raise CheckError(msg)
            ff = None
            if doc.get("failfile"):
                ff = os.path.join(scratch, "case.fail")
                with open(ff, "w") as f:
                    f.write(doc["failfile"])
            r = run_binary(job, p, os.path.join(scratch, "run"), os.path.join(scratch, "stats"), programs(b, spec), test=doc["test"], failfile=ff)
            kind, detail = classify(r)
            print(tail(r["out"], 8000))
            if kind == "error":
                raise CheckError(detail)
            bad = kind != "ok"
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: the recorded case passes" % prop)
        return 0
    except CheckError as e:
        print("cannot decide: %s" % e)
        return 2
    finally:
        kill_all()
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """Builds everything once: shows that the toolchain and the committed files are complete."""
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        b = Builder(scratch)
        bad = 0
        for arch, race in sorted({(c["goarch"], bool(c.get("race"))) for c in CONFIGS.values()}):
            path, msg = b.build(arch, race)
            print("%s race=%s: %s" % (arch, race, "built" if path else tail(msg, 2000)))
            bad += path is None
        return 1 if bad else 0
    except CheckError as e:
        print(e)
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "--list":
        print("\n".join(sorted(CHECKS)))
        return 0
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        return setup()
    if len(sys.argv) == 2 and sys.argv[1] in CHECKS:
        return run_check(sys.argv[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    def stop(signum, frame):
        kill_all()
        sys.exit(2)
    signal.signal(signal.SIGTERM, stop)
    sys.exit(main())
