#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C01 [quick|thorough]          run the check; exit 0 (held), 1 (VIOLATION line), 2 (error of the check)
  check.py C01 --replay FILE             run one saved case; exit 0 (passes), 1 (fails)
  check.py --build                       build everything once (setup)

The harness is a Go package per property, built from /repo's working tree, and run as several processes
(shards) with seeds derived from VERIF_SEED.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
SHARDS = 8

# Which binaries of /repo a property exercises: environment variable → package
BINARIES = {
    "C23": {"VP_BIN_JARGON": "./cmd/jargon"},
    "C24": {"VP_BIN_JARGON": "./cmd/jargon"},
    "C30": {"VP_BIN_JARGON": "./cmd/jargon"},
    "C25": {"VP_BIN_WEB": "./web"},
    "C26": {"VP_BIN_WEB": "./web"},
    "C27": {"VP_BIN_GENERATE": "./filters/contractions/generate"},
    "C28": {"VP_BIN_GENERATE": "./filters/stackoverflow/generate"},
    "C29": {"VP_BIN_GENERATE": "./filters/nba/generate"},
}
RACE = {"C11"}
LEVEL = {"C03": "fault_enumeration", "C24": "fault_enumeration"}
ASSUMPTIONS = [
    "the Go toolchain and the third-party modules in the module cache (uax29, snowball, x/net/html, x/text, rapid) behave as they do in this sandbox",
    "the reference models in /verif/harness/model and the snapshots in /verif/harness/data state the intended behaviour",
]
LIMIT = {"quick": 780, "thorough": 5400}  # seconds, for all shards together; running out is an error of the check


def environment():
    env = dict(os.environ)
    env.update(HOME="/root", GOPATH="/root/go", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local",
               GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off")
    env.pop("GOTMPDIR", None)
    return env


# The code under test writes, replaces and may delete files, and is not trusted to do so only where it should: it runs,
# with the harness, as a user who owns nothing but the scratch directory.
NOBODY = 65534


def unprivileged():
    """Arguments for subprocess that drop the privileges of root, if there are any to drop."""
    if os.geteuid() != 0:
        return {}
    if unprivileged.works is None:
        try:
            unprivileged.works = subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
        except (OSError, subprocess.SubprocessError):
            unprivileged.works = False  # harness/cli leaves out what needs it
    return {"user": NOBODY, "group": NOBODY, "extra_groups": []} if unprivileged.works else {}


unprivileged.works = None


def own(path):
    if unprivileged():
        os.chown(path, NOBODY, NOBODY)


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def modfile(scratch, source, name):
    """A copy of a go.mod and go.sum, so that the go command does not touch the original."""
    path = os.path.join(scratch, name + ".mod")
    shutil.copy(os.path.join(source, "go.mod"), path)
    sums = os.path.join(source, "go.sum")
    if os.path.exists(sums):
        shutil.copy(sums, os.path.join(scratch, name + ".sum"))
    return path


def build(prop, scratch):
    env = environment()
    binary = os.path.join(scratch, prop.lower() + ".test")
    mod = modfile(scratch, HARNESS, "harness")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", binary]
    if prop in RACE:
        cmd.append("-race")
    cmd.append("./" + prop.lower())
    r = run(cmd, cwd=HARNESS, env=env)
    if r.returncode != 0 or not os.path.exists(binary):
        raise CheckError("cannot build the harness of %s:\n%s" % (prop, r.stdout))
    extra = {}
    if prop in BINARIES:
        mod = modfile(scratch, REPO, "repo")
        for var, package in BINARIES[prop].items():
            out = os.path.join(scratch, var.lower())
            r = run(["go", "build", "-modfile", mod, "-o", out, package], cwd=REPO, env=env)
            if r.returncode != 0:
                raise CheckError("cannot build %s of /repo:\n%s" % (package, r.stdout))
            extra[var] = out
    return binary, extra


def shard_env(prop, tier, scratch, extra, shard, shards):
    env = environment()
    env.update(extra)
    own(scratch)
    shutil.copy(os.path.join(HERE, "known-findings.txt"), os.path.join(scratch, "known-findings.txt"))
    env.update(VP_TIER=tier, VP_SHARD=str(shard), VP_SHARDS=str(shards),
               VP_OUT=os.path.join(scratch, "out.%d.json" % shard),
               VP_SCRATCH=os.path.join(scratch, "work.%d" % shard),
               VP_CORPUS=os.path.join(HERE, "corpus", prop),
               VP_REPO=REPO, VP_KNOWN=os.path.join(scratch, "known-findings.txt"),
               HOME=os.path.join(scratch, "work.%d" % shard), TMPDIR=os.path.join(scratch, "work.%d" % shard),
               GOMAXPROCS="8" if prop in RACE else "2")
    env.setdefault("VERIF_SEED", "1")
    if prop in RACE:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    os.makedirs(env["VP_SCRATCH"], exist_ok=True)
    own(env["VP_SCRATCH"])
    return env


def test_cmd(binary):
    return [binary, "-test.run", "^Test$", "-test.timeout", "0", "-test.v=false"]


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def died(prop, tier, scratch, extra, binary, shard, shards, log):
    """A shard that ended without a result: was it the code under test? Run it again, keeping track of the case."""
    if "HARNESS-ERROR" in log or "rt.HarnessError" in log:
        raise CheckError("harness error:\n" + log[-4000:])
    fatal = [m for m in ("DATA RACE", "fatal error:", "panic:", "SIGSEGV", "stack overflow", "signal: ") if m in log]
    if not fatal or "cannot allocate memory" in log or "out of memory" in log:
        raise CheckError("a shard ended without a result:\n" + log[-4000:])
    env = shard_env(prop, tier, scratch, extra, shard, shards)
    env["VP_TRACE"] = os.path.join(scratch, "trace.json")
    for _ in range(3):
        r = run(test_cmd(binary), cwd=env["VP_SCRATCH"], env=env, timeout=LIMIT[tier], **unprivileged())
        if load(env["VP_OUT"]) is None and r.returncode != 0:
            break
    trace = load(env["VP_TRACE"])
    head = [l for l in log.splitlines() if l.strip()][:40]
    what = "the process died: " + fatal[0] + "\n" + "\n".join(head)
    if trace is None:
        trace = {"property": prop, "sub": "", "case": None, "seed": seed()}
    trace["error"] = what
    return trace


def check(prop, tier):
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop.lower())
    procs = []
    try:
        binary, extra = build(prop, scratch)
        built = time.time()
        shards = SHARDS
        failures, results, known = [], [], []
        for i in range(shards):
            env = shard_env(prop, tier, scratch, extra, i, shards)
            log = open(os.path.join(scratch, "log.%d" % i), "w")
            procs.append((i, subprocess.Popen(test_cmd(binary), cwd=env["VP_SCRATCH"], env=env, stdout=log, stderr=log,
                                              **unprivileged())))
            log.close()
        for i, p in procs:
            try:
                p.wait(timeout=max(1, LIMIT[tier] - (time.time() - start)))
            except subprocess.TimeoutExpired:
                raise CheckError("ran out of time")
            log = open(os.path.join(scratch, "log.%d" % i), errors="replace").read()
            result = load(os.path.join(scratch, "out.%d.json" % i))
            if "HARNESS-ERROR" in log or "rt.HarnessError" in log:
                raise CheckError("harness error:\n" + log[-6000:])
            if result is None:
                failures.append(died(prop, tier, scratch, extra, binary, i, shards, log))
                continue
            results.append(result)
            failures.extend(result["failures"] or [])
            known.extend(result["known"] or [])
            if p.returncode != 0 and not result["failures"]:
                if "DATA RACE" in log or "panic:" in log:
                    failures.append(died(prop, tier, scratch, extra, binary, i, shards, log))
                else:
                    raise CheckError("a shard failed without a failure:\n" + log[-4000:])

        for what in sorted(set(known)):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        evidence(prop, tier, results, failures, known, time.time() - start, built - start)
        if failures:
            failures.sort(key=lambda f: (len(json.dumps(f["case"])), json.dumps(f["case"])))
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            f = failures[0]
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, seed()))
            with open(path, "w") as out:
                json.dump(f, out, indent=1, ensure_ascii=False)
                out.write("\n")
            print("%s: %s" % (f.get("sub"), f.get("error", "")))
            print("case: " + json.dumps(f["case"], ensure_ascii=False)[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        e = sum(s["evaluations"] for r in results for s in r["subs"])
        print("%s held on %d cases (%.1f s)" % (prop, e, time.time() - start))
        return 0
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(prop, tier, results, failures, known, wall, build_s):
    subs = {}
    hashes = set()
    notes = set()
    for r in results:
        hashes.update(r["hashes"] or [])
        notes.update(r["notes"] or [])
        for s in r["subs"] or []:
            d = subs.setdefault(s["name"], {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "rule": s["rule"],
                                            "enumerated": s["enumerated"], "exhaustive": s["exhaustive"], "seconds": 0.0})
            d["evaluations"] += s["evaluations"]
            d["nontrivial"] += s["nontrivial"]
            d["seconds"] = max(d["seconds"], s["millis"] / 1000.0)
            for k, v in (s["labels"] or {}).items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            d["samples"].extend(s["samples"] or [])
    samples = []
    for name, d in subs.items():
        d["samples"] = sorted(set(d["samples"]), key=lambda x: (-min(len(x), 400), x))[:4]
        for s in d["samples"][:2]:
            samples.append({"sub": name, "case": json.loads(s)})
    coverage = {
        "evaluations": sum(d["evaluations"] for d in subs.values()),
        "distinct_nontrivial": len(hashes),
        "rule": " | ".join("%s: %s" % (n, d["rule"]) for n, d in subs.items()),
        "samples": samples,
        "exhaustive": bool(subs) and all(d["exhaustive"] for d in subs.values()),
        "parts": {n: {k: v for k, v in d.items() if k not in ("samples", "rule")} for n, d in subs.items()},
    }
    if notes:
        coverage["notes"] = sorted(notes)
    if known:
        coverage["known_findings"] = sorted(set(known))
    doc = {
        "property": prop, "tier": tier, "seed": seed(), "level": LEVEL.get(prop, "exploration"),
        "coverage": coverage, "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".tmp", path)


def replay(prop, path):
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop.lower())
    try:
        binary, extra = build(prop, scratch)
        env = shard_env(prop, "quick", scratch, extra, 0, 1)
        env["VP_REPLAY"] = os.path.join(scratch, "replay.json")
        shutil.copyfile(path, env["VP_REPLAY"])
        os.chmod(env["VP_REPLAY"], 0o644)
        r = run(test_cmd(binary), cwd=env["VP_SCRATCH"], env=env, timeout=LIMIT["quick"], **unprivileged())
        sys.stdout.write(r.stdout)
        if "HARNESS-ERROR" in r.stdout:
            return 2
        if r.returncode != 0:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if argv[:1] == ["--build"]:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            props = [c["property"] for c in json.load(f)["checks"]]
        for prop in props:
            scratch = tempfile.mkdtemp(prefix="vp-build-")
            try:
                build(prop, scratch)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        return 0
    prop = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(prop, tier)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        print("ERROR %s" % e, file=sys.stderr)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("ERROR %s" % e, file=sys.stderr)
        sys.exit(2)
