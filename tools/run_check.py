#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree, runs it in parallel
shards, writes evidence/<id>.json, and reports violations.

usage: run_check.py <property> [quick|thorough] [--shards N] [--scale X]
       run_check.py --replay FILE
"""
import argparse
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
RACE = {"C24"}
ASSUMPTIONS = [
    "exploration: holds for the generated cases, not for all inputs",
    "judged up to the rounding tolerances described in DESIGN.md",
]


def go_env():
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return env


def build(dest, race):
    cmd = ["go", "build", "-o", dest]
    if race:
        cmd.append("-race")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("build of the harness failed:\n" + p.stdout)
        sys.exit(2)


def run_env():
    env = dict(os.environ)
    env["GOMAXPROCS"] = "2"
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    env["GOTRACEBACK"] = "single"
    return env


def limit_memory():
    """A case needs some MB. One that uses up memory without limit must die instead of the sandbox suffering."""
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))


def replay(path):
    with open(path) as f:
        prop = json.load(f)["property"]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        binary = os.path.join(tmp, "harness")
        build(binary, prop in RACE)
        env = run_env()
        if prop in RACE:
            env["GOMAXPROCS"] = "8"
        rc = subprocess.run([binary, "-replay", path], env=env,
                            preexec_fn=None if prop in RACE else limit_memory).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if rc not in (0, 2):
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--fuzz", type=int, default=None,
                    help="seconds of coverage-guided fuzzing per sub-check, default 60 (thorough) or 0 (quick)")
    ap.add_argument("--replay")
    args = ap.parse_args()
    if args.replay:
        return replay(os.path.abspath(args.replay))
    prop, tier = args.prop, args.tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return run(prop, tier, seed, start, tmp, args)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, start, tmp, args):
    binary = os.path.join(tmp, "harness")
    race = prop in RACE
    build(binary, race)
    limit = 820 if tier == "quick" else 6 * 3600
    shards = 2 if race else args.shards
    env = run_env()
    if race:
        env["GOMAXPROCS"] = "4"
    procs = []
    for i in range(shards):
        out, cur, err = (os.path.join(tmp, f"{n}{i}") for n in ("out", "cur", "err"))
        cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(i), "-shards", str(shards),
               "-out", out, "-cur", cur, "-scale", str(args.scale)]
        with open(err, "w") as f:
            procs.append((subprocess.Popen(cmd, stdout=f, stderr=f, env=env, cwd=tmp,
                                           preexec_fn=None if race else limit_memory), out, cur, err))
    failures, infra, stats = [], [], []
    for p, out, cur, err in procs:
        try:
            rc = p.wait(timeout=max(1, start + limit - time.time()))
        except subprocess.TimeoutExpired:
            for q, *_ in procs:
                q.kill()
            print("inconclusive: time limit reached")
            return 2
        if os.path.exists(out):
            with open(out) as f:
                st = json.load(f)
            stats.append(st)
            failures += st["failures"] or []
            infra += st["infra"] or []
        elif rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM):
            infra.append(f"worker ended by signal {-rc}")
        else:
            # The process died (fatal error that can't be recovered, hang, or a data race). Confirm it.
            with open(err, errors="replace") as f:
                text = f.read()
            if any(f.get("died") for f in failures):
                continue  # one confirmed death is enough, confirming takes long when the process hangs
            died = confirm(binary, cur, env, race)
            if died:
                died["died"] = True
                died["message"] = died["message"] + "\n" + text[-6000:]
                failures.append(died)
            else:
                infra.append(f"worker failed with {rc} and the failure does not repeat:\n{text[-6000:]}")
    seconds = args.fuzz if args.fuzz is not None else 60 if tier == "thorough" else 0
    if seconds and not race and not failures and not infra:
        for name in sorted({n for st in stats for n in st["subs"]}):
            st, failed = fuzz(binary, prop, name, seed, seconds, tmp, infra)
            stats.append(st)
            failures += failed
    wall = time.time() - start
    known = known_findings(prop)
    reported = [f for f in failures if not is_known(f, known)]
    for k in known:
        if "KNOWN-FINDING" in k["head"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    write_evidence(prop, tier, seed, stats, wall, len(reported))
    if reported:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for f in reported:
            if f["sub"] in seen:
                continue
            seen.add(f["sub"])
            path = os.path.join(rdir, f"{prop}-{f['sub']}.json")
            with open(path, "w") as out:
                json.dump(f, out, indent=1, ensure_ascii=False)
            print(f"{prop}/{f['sub']}: {f['message'][:3000]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if infra:
        print("the check could not be completed:")
        for i in infra:
            print(i)
        return 2
    ev = sum(s["evaluations"] for st in stats for s in st["subs"].values())
    print(f"{prop} {tier}: held on {ev} cases in {wall:.1f} s")
    return 0


def fuzz(binary, prop, name, seed, seconds, tmp, infra):
    """Runs the same generator and oracle under Go's coverage-guided fuzzer. Returns statistics and failures."""
    fuzzer = os.path.join(tmp, "fuzzer")
    if not os.path.exists(fuzzer):
        p = subprocess.run(["go", "test", "-c", "-fuzz=FuzzProperty", "-o", fuzzer, "."], cwd=HARNESS, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            infra.append("build of the fuzzer failed:\n" + p.stdout)
            return {"subs": {}}, []
    work = tempfile.mkdtemp(prefix="fuzz-", dir=tmp)
    env = run_env()
    env.update(VERIF_FUZZ=f"{prop}/{name}", VERIF_FUZZ_OUT=work, VERIF_SEED=str(seed), GOMAXPROCS="8")
    cmd = [fuzzer, "-test.run=^$", "-test.fuzz=FuzzProperty", "-test.fuzzcachedir=" + os.path.join(work, "cache"),
           f"-test.fuzztime={seconds}s", "-test.parallel=8", "-test.fuzzminimizetime=1x"]
    p = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    total = {"Evaluations": 0, "Skipped": 0, "NonTrivial": 0}
    candidates = []
    for f in sorted(os.listdir(work)):
        path = os.path.join(work, f)
        if f.startswith("counts-"):
            with open(path) as h:
                for k, v in json.load(h).items():
                    if k in total:
                        total[k] += v
        elif f == "failure.json" or f.startswith("current-"):
            candidates.append(path)
    failed = []
    if p.returncode != 0:
        candidates.sort(key=lambda c: "current-" in c)
        for path in candidates:
            r = subprocess.run([binary, "-replay", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
            if r.returncode not in (0, 2) or r.returncode == 2 and "goroutine" in r.stdout:
                with open(path) as h:
                    case = json.load(h)
                case["message"] = f"found by coverage-guided fuzzing: {r.stdout[-3000:]}"
                failed.append(case)
                break
        else:
            infra.append(f"fuzzer failed with {p.returncode} and the failure does not repeat:\n{p.stdout[-3000:]}")
    s = {"evaluations": total["Evaluations"], "skipped": total["Skipped"], "nontrivial": total["NonTrivial"],
         "hashes": [], "labels": {}, "samples": [], "margin": 0, "rule": "as above, cases by coverage-guided fuzzing"}
    return {"subs": {name + " (coverage-guided)": s}}, failed


def confirm(binary, cur, env, race):
    """Re-runs the case a worker died on. Returns a failure when it dies again."""
    try:
        with open(cur) as f:
            text = f.read()
        case = json.loads(text)
    except (OSError, ValueError):
        return None
    path = cur + ".replay"
    with open(path, "w") as f:
        f.write(text)
    p = subprocess.run([binary, "-replay", path, "-repeat", "50" if race else "3"], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace",
                       preexec_fn=None if race else limit_memory)
    if p.returncode in (0, 2) and not (p.returncode == 2 and "goroutine" in p.stdout):
        return None
    if p.returncode < 0 and -p.returncode in (signal.SIGKILL, signal.SIGTERM):
        return None
    case["message"] = f"process died or hung (exit {p.returncode}): {p.stdout[-3000:]}"
    return case


def known_findings(prop):
    """Entries of known_findings.txt that are no fixed ones: 'KNOWN-FINDING: property=<id> sub=<name> match=<text> | what'."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            lines = f.read().splitlines()
    except OSError:
        return out
    for line in lines:
        if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
            head, _, what = line.partition(" | ")
            sub = head.split("sub=")[1].split()[0]
            match = head.split("match=")[1] if "match=" in head else None
            out.append({"head": head, "what": what, "sub": sub, "match": match})
    return out


def is_known(failure, known):
    return any(k["sub"] == failure["sub"] and k["match"] and k["match"] in failure["message"] for k in known)


def write_evidence(prop, tier, seed, stats, wall, violations):
    subs = {}
    for st in stats:
        for name, s in st["subs"].items():
            a = subs.setdefault(name, {"evaluations": 0, "skipped": 0, "nontrivial": 0, "hashes": set(), "labels": {},
                                       "samples": [], "rule": s["rule"], "largest_deviation_over_tolerance": 0.0})
            a["evaluations"] += s["evaluations"]
            a["skipped"] += s["skipped"]
            a["nontrivial"] += s["nontrivial"]
            a["hashes"].update(s["hashes"] or [])
            for k, v in (s["labels"] or {}).items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            if len(a["samples"]) < 2:
                a["samples"] += (s["samples"] or [])[:1]
            a["largest_deviation_over_tolerance"] = max(a["largest_deviation_over_tolerance"], s["margin"] or 0)
    samples = []
    for name, a in subs.items():
        samples += [{"sub": name, "case": c} for c in a.pop("samples")]
        a["distinct_nontrivial"] = len(a.pop("hashes"))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in subs.values()),
            "distinct_nontrivial": sum(a["distinct_nontrivial"] for a in subs.values()),
            "rule": "; ".join(f"{n}: {a['rule']}" for n, a in subs.items()),
            "samples": samples,
            "sub_properties": subs,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
