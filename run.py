#!/usr/bin/env python3
"""Driver of the checks.

  python3 run.py setup                 builds every stage
  python3 run.py C04 [--tier quick|thorough] [--seed N]
  python3 run.py C04 --replay FILE     runs only the case a replay file names

A check is a list of stages. Each stage is a program that contains the code under test, compiled from
/repo's working tree, a workload and monitors. The stages that could be built decide together.
Exit: 0 held, 1 violation (with a VIOLATION line), 2 no answer.
"""
import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WS = os.path.join(HERE, "ws")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(HERE, "replay")
KNOWN = os.path.join(HERE, "known-findings.jsonl")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"

from checks import CHECKS, STAGES  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for top in ("src", "uniffi/src", "wasm/src"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "node_modules", "pkg"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()


REPO_PACKAGES = ("didcomm", "partial", "harness", "uharness", "didcomm-uniffi", "wharness", "didcomm-js")


def build(stage):
    """Builds one stage; returns the path of its program, or None if it does not compile."""
    st = STAGES[stage]
    target = os.path.join(BUILD, st.get("target", "target"))
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo judges freshness by file times; judge it by content instead
        stamp = os.path.join(target, "repo-" + stage)
        want = repo_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            for prof in [target] + [os.path.join(target, x) for x in os.listdir(target)]:
                fp = os.path.join(prof, "debug", ".fingerprint") if not prof.endswith("debug") else os.path.join(prof, ".fingerprint")
                if os.path.isdir(fp):
                    for e in os.listdir(fp):
                        if e.rsplit("-", 1)[0] in REPO_PACKAGES:
                            shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
            for f in os.listdir(target):
                if f.startswith("repo-"):
                    os.unlink(os.path.join(target, f))
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC")) and k != "CARGO_HOME":
                del env[k]
        env.update({
            "RUSTUP_TOOLCHAIN": st.get("toolchain", STABLE),
            "CARGO_NET_OFFLINE": "true",
            "CARGO_TARGET_DIR": target,
            "RUSTFLAGS": st.get("rustflags", ""),
            "CARGO_TERM_COLOR": "never",
        })
        env.setdefault("HOME", "/root")
        cmd = ["cargo", "build", "--offline", "--locked", "-p", st["package"], "--bin", st["bin"]] + st.get("cargo", [])
        t = time.time()
        r = subprocess.run(cmd, cwd=os.path.join(WS, st.get("dir", "")), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log(f"[build] {stage}: rc={r.returncode} in {time.time() - t:.1f} s")
        if r.returncode != 0:
            errs = [l for l in r.stdout.splitlines() if l.startswith("error") or l.lstrip().startswith("-->")]
            log("\n".join(errs[:20]) or r.stdout[-2000:])
            return None
        with open(stamp, "w") as f:
            f.write(want)
    sub = st.get("outdir", "debug")
    return os.path.join(target, sub, st["bin"])


def run_stage(stage, exe, prop, tier, seed, extra, timeout):
    st = STAGES[stage]
    out = os.path.join(BUILD, "out")
    os.makedirs(out, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    res = os.path.join(out, f"{prop}-{stage}-{os.getpid()}.json")
    if os.path.exists(res):
        os.unlink(res)
    cmd = [exe, prop, "--out", res, "--replay-dir", REPLAY, "--tier", tier, "--seed", str(seed), "--known", KNOWN, "--stage", stage] + extra
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    env.update(st.get("env", {}))
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
        rc = "timeout"
    try:
        with open(res) as f:
            data = json.load(f)
        os.unlink(res)
    except (OSError, ValueError):
        data = None
    return rc, so, se, data


def crash_violation(prop, stage, rc, se, tier, seed):
    """The program died under the workload: the monitored operation neither returned nor reported an error."""
    case = next((l for l in se.splitlines() if l.startswith("CRASH ")), "CRASH unknown 0 0")
    part, num = (case.split() + ["unknown", "0"])[1:3]
    path = os.path.join(REPLAY, f"{prop}-{stage}-s{seed}-crash.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "stage": stage, "seed": seed, "tier": tier, "part": part, "case": int(num) if num.isdigit() else 0, "signature": "crash",
                   "witness": {"exit": str(rc), "stderr": se[-3000:]}, "replay": f"python3 {HERE}/run.py {prop} --replay {path}"}, f, indent=1)
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  the process died ({rc}) in part {part} case {num}")


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        ok = True
        for s in STAGES:
            ok = (build(s) is not None) and ok
        for s in STAGES:
            for pre in STAGES[s].get("warm", []):
                subprocess.run(pre, shell=True, cwd=HERE)
        sys.exit(0 if ok else 1)
    prop = a[0]
    get = lambda n, d=None: a[a.index(n) + 1] if n in a else d
    tier = get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(get("--seed") or os.environ.get("VERIF_SEED") or 1)
    replay = get("--replay")
    stages = list(CHECKS[prop]["stages"])
    extra = []
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        stages, seed, tier = [rp["stage"]], rp["seed"], rp["tier"]
        extra = ["--part", rp["part"], "--case", str(rp["case"])]
    t0 = time.time()
    limit = 840 if tier == "quick" else 6 * 3600
    decided, failed, inconclusive, violated = [], [], [], False
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}, "stages": []}
    rules, assumptions, nviol, known = [], [], 0, {}
    for s in stages:
        exe = build(s)
        if exe is None:
            failed.append(s)
            cov["stages"].append({"stage": s, "result": "does not compile against this tree; not run"})
            continue
        left = limit - (time.time() - t0)
        rc, so, se, data = run_stage(s, exe, prop, tier, seed, extra + STAGES[s].get("args", []), max(30, left))
        sys.stdout.write(so)
        sys.stdout.flush()
        if se.strip():
            log(se[-4000:])
        if data:
            cov["evaluations"] += data["evaluations"]
            cov["distinct_nontrivial"] += data["distinct_nontrivial"]
            rules.append(data["rule"])
            cov["samples"] += data["samples"]
            for k, v in data["observed"].items():
                cov["observed"][k] = cov["observed"].get(k, 0) + v
            cov["stages"].append({"stage": s, "what": STAGES[s]["what"], "parts": data["parts"], "seconds": round(data["seconds"], 2), "harness_errors": data["harness_errors"]})
            assumptions += [x for x in data["assumptions"] if x not in assumptions]
            nviol += data["violations"]
            for k, v in data["known_findings_hit"].items():
                known[k] = known.get(k, 0) + v
        if rc == 1 and "VIOLATION property=" in so:
            violated = True
            decided.append(s)
        elif rc == 0 and data:
            decided.append(s)
        elif isinstance(rc, int) and (rc < 0 or rc in (66, 134, 139)):
            crash_violation(prop, s, rc, se, tier, seed)
            nviol += 1
            violated = True
        else:
            inconclusive.append(f"{s} (exit {rc})")
    cov["rule"] = " ".join(rules)
    if known:
        cov["known_findings_hit"] = known
    os.makedirs(EVID, exist_ok=True)
    if not replay:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions,
              "wall_s": round(time.time() - t0, 2), "violations": nviol}
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if violated:
        sys.exit(1)
    if inconclusive or not decided:
        log(f"no answer for {prop}: not compiled {failed}, inconclusive {inconclusive}")
        sys.exit(2)
    log(f"{prop} held: {cov['evaluations']} judged executions in {time.time() - t0:.1f} s; stages {decided}" + (f"; not compiled {failed}" if failed else ""))
    sys.exit(0)


if __name__ == "__main__":
    main()
