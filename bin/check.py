#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]           decide one property
   check.py --setup                         prebuild everything
   check.py --replay <ID> <replay file>     re-run one shrunk failure
   check.py --list
"""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import registry  # noqa: E402
import vbuild  # noqa: E402

NPROC = os.cpu_count() or 4


def known_findings(pid=""):
    """The listed findings of this property, or of all."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s" % (pid and pid + " ")):
                d = dict(kv.split("=", 1) for kv in l.split(" -- ")[0].split()
                         if "=" in kv)
                d["what"] = l.split(" -- ", 1)[1].strip()
                out.append(d)
    return out


_scratch = []


def scratch():
    """Scratch directory of this run, removed when it ends."""
    if not _scratch:
        d = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
        _scratch.append(d)
        atexit.register(shutil.rmtree, d, ignore_errors=True)
    return _scratch[0]


def env_for():
    e = dict(os.environ)
    e["VERIF_KNOWN"] = ",".join(k["id"] for k in known_findings())
    e["VERIF_DIR"] = VERIF
    e["VERIF_BUILD"] = vbuild.BUILD
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:"
                 "allocator_may_return_null=1:handle_segv=1:exitcode=99")
    e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:print_stacktrace=0")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_TMP"] = e["TMPDIR"] = scratch()
    # Nothing of the caller's environment may steer the code under test.
    for k in list(e):
        if k.startswith(("OM_", "ONNX_MLIR", "JSONITER", "MLIR_")):
            del e[k]
    e["LC_ALL"] = "C.UTF-8"
    return e


def command(h):
    """Build harness h; -> argv prefix."""
    return registry.build(h)


def main():
    a = sys.argv[1:]
    if not a or a[0] == "--list":
        for k, c in registry.CHECKS.items():
            print(k, [r["h"] + ":" + r["p"] for r in c["runs"]])
        return 0
    if a[0] == "--setup":
        bad = 0
        for h in registry.all_harnesses():
            t = time.time()
            try:
                registry.build(h)
                print("built %-24s %.1fs" % (h, time.time() - t), flush=True)
            except vbuild.BuildError as e:
                bad = 1
                print("FAILED to build %s\n%s" % (h, e), flush=True)
        return bad
    if a[0] == "--replay":
        pid, f = a[1], a[2]
        sub = os.path.basename(f).split(".")[1]
        for r in registry.CHECKS[pid]["runs"]:
            if r["p"] == sub:
                return subprocess.call(
                    command(r["h"]) + ["--property", r["p"], "--replay", f],
                    env=env_for())
        return 2
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = registry.CHECKS[pid]
    t0 = time.time()
    kf = known_findings(pid)
    env = env_for()
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    os.makedirs(os.path.join(evd, "tmp"), exist_ok=True)
    evf = os.path.join(evd, pid + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    try:
        for h in dict.fromkeys(r["h"] for r in c["runs"]):
            command(h)
    except vbuild.BuildError as e:
        print("BUILD FAILED for", pid)
        print(e)
        return 2
    tb = time.time() - t0
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "cases": 0,
           "discarded": 0, "rule": c["rule"], "samples": [], "parts": {}}
    violations, errors = [], []
    for r in c["runs"]:
        n, secs = r[tier]
        out = os.path.join(evd, "tmp", "%s.%s.json" % (pid, r["p"]))
        rep = os.path.join(evd, "replay", "%s.%s.replay" % (pid, r["p"]))
        for f in (out, rep):
            if os.path.exists(f):
                os.unlink(f)
        cmd = command(r["h"]) + [
            "--property", r["p"], "--seed", str(seed), "--cases", str(n),
            "--seconds", str(secs), "--jobs", str(min(NPROC, r.get("jobs", 8))),
            "--case-timeout", str(r.get("case_timeout", 60)),
            "--out", out, "--replay-out", rep]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            errors.append("%s:%s gave no result (exit %d)\n%s" % (
                r["h"], r["p"], p.returncode, p.stdout[-3000:]))
            continue
        cov["evaluations"] += res["evaluations"]
        cov["cases"] += res["cases"]
        cov["discarded"] += res["discarded"]
        cov["distinct_nontrivial"] += res["distinct_nontrivial"]
        cov["samples"] += ["[%s] %s" % (r["p"], s) for s in res["samples"][:4]]
        cov["parts"][r["p"]] = {
            k: res[k] for k in ("evaluations", "cases", "discarded",
                                "nontrivial", "distinct_nontrivial",
                                "unconfirmed", "wall_s")}
        cov["parts"][r["p"]]["labels"] = dict(sorted(
            res["labels"].items(), key=lambda x: -x[1])[:40])
        if res["violated"]:
            violations.append((r, rep, res))
        elif res["cases"] and res["discarded"] == res["cases"]:
            errors.append("%s:%s: every case was discarded" % (
                r["h"], r["p"]))
        elif not res["cases"]:
            errors.append("%s:%s: no case was run" % (r["h"], r["p"]))
    cov["samples"] = cov["samples"][:12]
    for k in kf:
        h, p = k["probe"].split(":")
        e2 = dict(env)
        e2["VERIF_KNOWN"] = ""
        q = subprocess.run(command(h) + ["--property", p, "--cases", "1",
                                         "--jobs", "1"], env=e2,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": c.get("level", "exploration"), "coverage": cov,
          "assumptions": c.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    cov["build_s"] = round(tb, 2)
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evf + ".tmp", evf)
    for r, rep, res in violations:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        print("  [%s] %s" % (r["p"], res["message"][:1500]))
        print("  case: %s" % res["case"][:1500])
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d evaluations=%d "
          "distinct_nontrivial=%d wall=%.1fs" % (
              pid, tier, seed, cov["cases"], cov["evaluations"],
              cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
