#!/usr/bin/env python3
"""Decides one property by static analysis of /repo's working tree.

    check.py <PROPERTY>     exit 0: held, 1: VIOLATION, other: no answer
    check.py --setup        build the analysis driver

Nothing of /repo is executed: the analysed crates are only type-checked, and
the driver, which takes the place of the compiler for the subject crate,
interprets their MIR abstractly.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props  # noqa: E402


class NoAnswer(Exception):
    pass


def env_base():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL", "RUSTDOCFLAGS",
              "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    for k in list(env):
        if k.startswith("CARGO_PROFILE_"):
            env.pop(k)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    return env


def sysroot():
    r = subprocess.run(["rustc", "--print", "sysroot"], env=env_base(), capture_output=True,
                       text=True)
    if r.returncode:
        raise NoAnswer("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


def driver():
    """The driver binary, built if it is missing or out of date."""
    out = os.path.join(BUILD, "driver", "debug", "kulv-driver")
    src = os.path.join(VERIF, "driver")
    newest = 0
    for d, _, fs in os.walk(os.path.join(src, "src")):
        for f in fs:
            newest = max(newest, os.path.getmtime(os.path.join(d, f)))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return out
    env = env_base()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=src, env=env,
                       capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise NoAnswer("the driver does not build:\n" + r.stderr[-4000:])
    os.utime(out)
    return out


def analyse(targets, tmp, feature, tag=""):
    """Runs the driver on the subject crate; returns its report."""
    env = env_base()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["KULV_TARGETS"] = ",".join(targets)
    out = os.path.join(tmp, "report-" + feature + tag + ".json")
    env["KULV_OUT"] = out
    env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target-" + feature + tag)
    env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow"
    env["RUSTC_WORKSPACE_WRAPPER"] = driver()
    r = subprocess.run(
        ["cargo", "check", "--offline", "--quiet", "--locked", "--features", feature],
        cwd=os.path.join(VERIF, "subject"), env=env, capture_output=True, text=True)
    sys.stderr.write(r.stderr)
    if r.returncode or not os.path.exists(out):
        raise NoAnswer("the analysis of the " + feature + " subject did not finish")
    with open(out) as f:
        return json.load(f)["targets"]


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> key=<key> <what fails>
                parts = line.split(" ", 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(pid, key)] = parts[3] if len(parts) > 3 else ""
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        driver()
        print("driver built")
        return 0
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    ev_path = os.path.join(EVID, pid + ".json")
    vi_path = os.path.join(EVID, pid + ".violation.json")
    for p in (ev_path, vi_path):
        if os.path.exists(p):
            os.remove(p)
    tmp = tempfile.mkdtemp(prefix=pid + "-", dir=WORK)
    try:
        res = props.decide(pid, tmp, sys.modules[__name__])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = known_findings()
    new = []
    for v in res.violations:
        k = (pid, v["key"])
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k] or v['key']}")
        else:
            new.append(v)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": res.coverage,
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for n in res.inconclusive[:20]:
        print("INCONCLUSIVE:", n)
    if new:
        with open(vi_path, "w") as f:
            json.dump(new, f, indent=1)
            f.write("\n")
        for v in new:
            print(f"  {v['key']}: {v.get('site', '')}: {v['detail']}")
            for t in v.get("trace", []):
                print("      " + t)
        print(f"VIOLATION property={pid} replay={os.path.relpath(vi_path, VERIF)}")
        return 1
    if res.missing:
        for m in res.missing:
            print("MISSING:", m)
        raise NoAnswer("the analysis did not reach what it has to reach")
    print(f"HELD property={pid} " + res.summary)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER:", e)
        sys.exit(2)
