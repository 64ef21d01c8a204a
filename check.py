#!/usr/bin/env python3
"""Runs the check of one property: builds picotm from /repo's working tree with
the property's harness(es), searches generated cases, writes evidence.

  check.py C01                 quick (or $VERIF_TIER)
  check.py C01 --tier thorough
  check.py C01 --replay FILE   re-runs one recorded case
Exit status: 0 held on everything explored; 1 violation.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build as B
from props import PROPS

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """[(id, text)] for 'known: property=<id> id=<fid> <text>' lines."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                out.append((m[2], m[3]))
    return out


def scratch_base():
    """Memory is several times faster than the disk for files that exist for a moment."""
    if "TMPDIR" not in os.environ:
        try:
            v = os.statvfs("/dev/shm")
            if os.access("/dev/shm", os.W_OK | os.X_OK) and v.f_bavail * v.f_frsize >= 1 << 29:
                return "/dev/shm"
        except OSError:
            pass
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--time", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    spec = PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    total = a.time or spec.get(tier + "_s", 18.0 if tier == "quick" else 300.0)
    wsum = sum(r.get("weight", 1) for r in spec["runs"])
    t0 = time.time()
    known = known_findings(a.prop)
    kl = ",".join(k for k, _ in known)
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)

    exes = {}
    for r in spec["runs"]:
        key = (r["harness"], r.get("variant", "asan"))
        if key not in exes:
            try:
                exes[key] = B.build(r["harness"], r["mods"], key[1], r.get("extra_c", ()),
                                    r.get("cflags", ()), r.get("ldflags", ()))
            except subprocess.CalledProcessError:
                # the tree does not compile: no verdict about the property
                print("ERROR: build failed", file=sys.stderr)
                return 2

    if a.replay:
        j = json.load(open(a.replay))
        r = [r for r in spec["runs"] if r.get("mode", "") == j["mode"] and
             r["harness"] == j.get("harness", r["harness"]) and
             r.get("variant", "asan") == j.get("variant", r.get("variant", "asan"))][0]
        rc = subprocess.run([exes[(r["harness"], r.get("variant", "asan"))], "--mode", j["mode"],
                             "--known", kl, "--replay", a.replay]).returncode
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return rc

    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    rules, runs, violations = [], [], 0
    first_replay = None
    for n, r in enumerate(spec["runs"]):
        mode = r.get("mode", "")
        variant = r.get("variant", "asan")
        scratch = tempfile.mkdtemp(prefix="pbt-%s-" % a.prop, dir=scratch_base())
        out = os.path.join(scratch, "out.json")
        tmp_replay = os.path.join(scratch, "replay.json")
        work = os.path.join(scratch, "w")
        os.mkdir(work)
        env = dict(os.environ)
        env.update(r.get("env", {}))
        env["TMPDIR"] = work
        try:
            p = subprocess.run([exes[(r["harness"], variant)], "--mode", mode,
                                "--time", str(total * r.get("weight", 1) / wsum),
                                "--seed", str(a.seed), "--tier", tier, "--out", out,
                                "--jobs", str(min(a.jobs, r.get("jobs", 8))),
                                "--known", kl, "--replay-out", tmp_replay, "--scratch", work],
                               env=env, stdout=subprocess.DEVNULL)
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print("ERROR: engine ended with %d" % p.returncode, file=sys.stderr)
                return 2
            j = json.load(open(out))
            if p.returncode == 1 and os.path.exists(tmp_replay):
                violations += 1
                name = "%s-%s%s.json" % (a.prop, r["harness"], "-" + mode if mode else "")
                first_replay = first_replay or os.path.join("replays", name)
                rj = json.load(open(tmp_replay))
                rj["harness"], rj["variant"], rj["property"] = r["harness"], variant, a.prop
                rj["choices"] = rj.pop("choices")
                with open(os.path.join(replay_dir, name), "w") as f:
                    f.write(json.dumps(rj).replace('"choices": [', '"choices": [').replace(", ", ", "))
                # the engine's own parser wants compact numbers
                t = open(os.path.join(replay_dir, name)).read()
                i = t.rindex('"choices": [')
                t = t[:i] + t[i:].replace(", ", ",")
                open(os.path.join(replay_dir, name), "w").write(t)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        cov["evaluations"] += j["evaluations"]
        cov["distinct_nontrivial"] += j["distinct_nontrivial"]
        rules.append(("[%s%s/%s] " % (r["harness"], ":" + mode if mode else "", variant)) + j["rule"])
        keep = 4 if len(spec["runs"]) == 1 else 2
        cov["samples"] += j["samples"][:keep]
        runs.append({"harness": r["harness"], "mode": mode, "variant": variant,
                     "evaluations": j["evaluations"], "nontrivial": j["nontrivial"],
                     "distinct_nontrivial": j["distinct_nontrivial"],
                     "inconclusive": j["inconclusive"], "labels": j["labels"],
                     "wall_s": j["wall_s"]})
        if violations:
            break
    cov["rule"] = " ".join(rules)
    cov["runs"] = runs
    ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": spec.get("level", "exploration"),
          "coverage": cov, "assumptions": spec.get("assumptions", []) or [
              "Linux/glibc x86-64, gcc; configuration as found by ./configure on this platform"],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", a.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for fid, text in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, fid, text))
    print("%s: %d cases, %d distinct non-trivial, %.1f s" %
          (a.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    if violations:
        print("VIOLATION property=%s replay=%s" % (a.prop, first_replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
