#!/usr/bin/env python3
"""Run the check of one property against /repo's working tree.

  run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself could not give an answer.
"""
import argparse, glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

SLOT, WORKERS, NAME = 4096, 64, 64
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


MIRI = """#!/bin/bash
a=()
while [ $# -gt 0 ]; do case "$1" in --slots|--threads) shift 2;; *) a+=("$1"); shift;; esac; done
cd %(mc)s && export CARGO_TARGET_DIR=%(tgt)s RUSTFLAGS=-Awarnings
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows"
exec cargo +nightly miri run --offline -q --bin %(bin)s -- --threads 1 "${a[@]}"
"""


class Broken(Exception):
    """No answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "mc", "src"), os.path.join(ROOT, "mc", "tables")):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "mc", "Cargo.toml")]
    files += [f for f in (os.path.join(REPO, "build.rs"),) if os.path.exists(f)]
    for f in sorted(files):
        with open(f, "rb") as fh:
            b = fh.read()
        h.update(f.encode() + b"\0" + str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()[:20]


def workdir():
    base = os.path.join(ROOT, "build")
    os.makedirs(base, exist_ok=True)
    w = os.path.join(base, tree_hash())
    old = sorted((d for d in glob.glob(base + "/*") if d != w), key=os.path.getmtime, reverse=True)
    for d in old[1:]:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(w, exist_ok=True)
    os.utime(w)
    return w


def cargo_env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(extra or {})
    return e


def build_start(w, profile, binname):
    tgt = os.path.join(w, profile)
    log = open(os.path.join(w, "%s-%s.log" % (profile, binname)), "w+")
    cwd = os.path.join(ROOT, "mc")
    if profile == "asan":
        cmd = ["cargo", "+nightly", "build", "--offline", "--profile", "checked", "--target", "x86_64-unknown-linux-gnu", "--bin", binname]
        env = cargo_env({"RUSTFLAGS": "-Zsanitizer=address --cfg mc_asan -Awarnings"})
        out = os.path.join(tgt, "x86_64-unknown-linux-gnu", "checked", binname)
    elif profile == "sched":
        # the compiler calls the scheduler at every block, load and store
        cmd = ["cargo", "build", "--offline", "--profile", "sched", "--bin", binname]
        env = cargo_env({"RUSTFLAGS": "-Awarnings --cfg mc_sched -Cpasses=sancov-module" + "".join(
            " -Cllvm-args=-sanitizer-coverage-" + o for o in ("level=3", "trace-pc-guard", "trace-loads", "trace-stores"))})
        out = os.path.join(tgt, "sched", binname)
    elif profile == "count":
        # the same, the standard library included
        cmd = ["cargo", "+nightly", "build", "--offline", "-Zbuild-std=std,panic_unwind", "--target", "x86_64-unknown-linux-gnu", "--profile", "sched", "--bin", binname]
        env = cargo_env({"RUSTFLAGS": "-Awarnings --cfg mc_sched -Cpasses=sancov-module" + "".join(
            " -Cllvm-args=-sanitizer-coverage-" + o for o in ("level=3", "trace-pc-guard", "trace-loads", "trace-stores"))})
        out = os.path.join(tgt, "x86_64-unknown-linux-gnu", "sched", binname)
    elif profile == "miri":
        # an interpreter: what is run is a script that starts it
        os.makedirs(tgt, exist_ok=True)
        out = os.path.join(tgt, binname)
        with open(out, "w") as fh:
            fh.write(MIRI % {"mc": os.path.join(ROOT, "mc"), "bin": binname, "tgt": tgt})
        os.chmod(out, 0o755)
        cmd = ["cargo", "+nightly", "miri", "setup"]
        env = cargo_env()
    else:
        cmd = ["cargo", "build", "--offline", "--profile", profile, "--bin", binname]
        env = cargo_env({"RUSTFLAGS": "-Awarnings"})
        out = os.path.join(tgt, profile, binname)
    env["CARGO_TARGET_DIR"] = tgt
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT)
    return p, log, out


def build(w, profiles, binname):
    ps = [(pr,) + build_start(w, pr, binname) for pr in profiles]
    bins = {}
    for pr, p, log, out in ps:
        try:
            rc = p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Broken("build timed out")
        log.seek(0)
        txt = log.read()
        log.close()
        if rc != 0 or not os.path.exists(out):
            raise Broken("build failed (%s):\n%s" % (pr, txt[-4000:]))
        bins[pr] = out
    return bins


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_as():
    limits()
    g = 14 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))


def env_run(profile):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    if profile == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    return e


def read_slots(path):
    """Cases that were being executed when the process died."""
    try:
        with open(path, "rb") as fh:
            b = fh.read()
    except OSError:
        return []
    out = []
    for w in range(WORKERS):
        s = b[w * SLOT:(w + 1) * SLOT]
        if len(s) < SLOT:
            break
        act, sid, kind, n = struct.unpack_from("<4I", s)
        if act != 1 or n > SLOT // 4 - 8:
            continue
        ch = list(struct.unpack_from("<%dI" % n, s, 16))
        o = SLOT * WORKERS + sid * NAME
        name = b[o:o + NAME].split(b"\0")[0].decode("ascii", "replace")
        out.append({"scenario": name, "kind": "sweep" if kind == 1 else "dfs", "choices": ch})
    return out


def replay_arg(v):
    return "%s;%s;%s" % (v["scenario"], v["kind"], ",".join(map(str, v["choices"])))


def replay_once(binp, profile, tier, v, timeout=120):
    try:
        r = sh([binp, "--tier", tier, "--replay", replay_arg(v)], timeout=timeout, preexec_fn=limits if profile in ("asan", "miri") else limits_as, env=env_run(profile))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def died(rc, profile):
    return (isinstance(rc, int) and rc < 0 and -rc in CRASH) or (profile == "asan" and rc == 99)


def explore(binp, profile, tier, seed, w, prop, timeout, threads):
    tag = "%s-%s-%d" % (prop, profile, os.getpid())
    out = os.path.join(w, tag + ".json")
    slots = os.path.join(w, tag + ".slots")
    logp = os.path.join(w, tag + ".log")
    if os.path.exists(out):
        os.unlink(out)
    with open(logp, "w") as log:
        p = subprocess.Popen([binp, "--tier", tier, "--seed", str(seed), "--out", out, "--slots", slots, "--threads", str(threads)],
                             stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits if profile in ("asan", "miri") else limits_as, env=env_run(profile))
        return p, out, slots, logp


def settle(p, out, slots, logp, binp, profile, tier, timeout):
    """Returns (report or None, violation or None, retry)."""
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Broken("%s run exceeded %d s" % (profile, timeout))
    with open(logp, errors="replace") as fh:
        txt = fh.read()
    if rc in (0, 1) and os.path.exists(out):
        with open(out) as fh:
            rep = json.load(fh)
        v = rep.get("violation")
        if rc == 1 and not v:
            raise Broken("inconsistent report")
        return rep, v, bool(v) and v["kind"] == "run"
    if profile == "miri" and "Undefined Behavior" in txt:
        i = txt.index("Undefined Behavior")
        return None, {"scenario": "miri", "kind": "run", "choices": [], "message": txt[max(0, i - 200):i + 3000], "trace": []}, False
    if rc == 2 or rc == 97:
        raise Broken("%s: %s" % (profile, txt[-3000:]))
    if rc == 86 or died(rc, profile):
        what = "does not return" if rc == 86 else "process died (%s)" % (("signal %d" % -rc) if rc < 0 else "memory error")
        for c in read_slots(slots):
            rc2, t2 = replay_once(binp, profile, tier, c)
            if rc2 == "timeout" or died(rc2, profile) or rc2 == 1:
                c["message"] = (what if rc2 == "timeout" or died(rc2, profile) else "") + "; replay: " + (str(rc2) + " " + t2[-1500:])
                c["trace"] = []
                return None, c, False
        return None, {"scenario": "*", "kind": "run", "choices": [], "message": what + " (no single case reproduces it)\n" + txt[-1500:], "trace": []}, True
    raise Broken("%s run ended with %s: %s" % (profile, rc, txt[-3000:]))


def write_replay(prop, tier, profile, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    with open(path, "w") as fh:
        json.dump({"property": prop, "tier": tier, "profile": profile, **v}, fh, indent=1)
    return path


def evidence(prop, tier, seed, cfg, reports, extra, wall, nviol):
    main = reports.get("checked") or (list(reports.values()) or [{}])[0]
    sc = list(main.get("scenarios", []))
    for r in reports.values():
        sc += [s for s in r.get("scenarios", []) if s["name"] not in [x["name"] for x in sc]]
    ex = sum(s["executions"] for s in sc)
    tr = sum(s["transitions"] for s in sc)
    st = sum(s["states"] for s in sc)
    nt = sum(s["nontrivial"] for s in sc)
    samples = [x for s in sc for x in s["samples"][:2]][:14]
    rows = [{k: s[k] for k in ("name", "bound", "executions", "transitions", "states", "states_capped", "outcomes", "nontrivial", "max_choices", "complete", "tags")} for s in sc]
    cov = {"scenarios": rows, "samples": samples or ["none"],
           "profiles": {p: {"executions": sum(s["executions"] for s in r.get("scenarios", [])), "wall_s": r.get("wall_s")} for p, r in reports.items()},
           "exhaustive": bool(sc) and all(s["complete"] for s in sc)}
    cov.update(extra)
    lvl = cfg["level"]
    if lvl == "model_checking":
        cov.update({"states": st, "transitions": tr, "traces_validated_against_impl": ex, "nontrivial_executions": nt})
    else:
        cov.update({"evaluations": ex, "distinct_nontrivial": nt, "rule": cfg["rule"], "steps": tr, "model_states": st})
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
                   "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 3), "violations": nviol}, fh, indent=1)
        fh.write("\n")


def known(prop):
    out = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as fh:
            for l in fh:
                if l.startswith("KNOWN: property=%s " % prop):
                    out.append(l.strip()[7:])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--profiles")
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    t0 = time.time()
    timeout = 780 if tier == "quick" else 6 * 3600
    try:
        w = workdir()
        binname = cfg.get("bin", prop.lower())
        profiles = a.profiles.split(",") if a.profiles else list(cfg.get("profiles", {}).get(tier) or cfg.get("profiles", {}).get("quick") or ["checked", "release"])
        if a.replay:
            with open(a.replay) as fh:
                v = json.load(fh)
            if v["kind"] == "program":
                hook = __import__(cfg["program"])
                return hook.replay(ROOT, REPO, w, v)
            b = build(w, [v["profile"]], binname)[v["profile"]]
            if v["kind"] == "run":
                r = sh([b, "--tier", v["tier"]], preexec_fn=limits, env=env_run(v["profile"]))
                print(r.stdout[-3000:], "exit", r.returncode)
                return 1 if r.returncode else 0
            rc, txt = replay_once(b, v["profile"], v["tier"], v)
            print(txt, "exit", rc)
            return 0 if rc == 0 else 1
        reports, violation, extra = {}, None, {}
        if cfg.get("program"):
            # properties over generated programs
            hook = __import__(cfg["program"])
            reports, violation, extra = hook.run(ROOT, REPO, w, tier, seed, cargo_env)
        if not violation and not cfg.get("program_only"):
            bins = build(w, profiles, binname)
            thr = os.cpu_count() or 4
            running = []
            for pr in profiles:
                running.append((pr, explore(bins[pr], pr, tier, seed, w, prop, timeout, thr)))
            for pr, (p, out, slots, logp) in running:
                if violation:
                    p.kill()
                    p.wait()
                    continue
                rep, v, retry = settle(p, out, slots, logp, bins[pr], pr, tier, max(10, timeout - (time.time() - t0)))
                if retry:
                    p, out, slots, logp = explore(bins[pr], pr, tier, seed, w, prop, timeout, thr)
                    rep, v2, _ = settle(p, out, slots, logp, bins[pr], pr, tier, max(10, timeout - (time.time() - t0)))
                    if not v2:
                        raise Broken("%s: a run died and its repetition did not: %s" % (pr, v["message"]))
                    v = v2
                if rep:
                    reports[pr] = rep
                if v:
                    v["profile"] = pr
                    violation = v
            for f in glob.glob(os.path.join(w, "%s-*-%d.*" % (prop, os.getpid()))):
                os.unlink(f)
        wall = time.time() - t0
        for k in known(prop):
            print("KNOWN-FINDING: %s" % k)
        evidence(prop, tier, seed, cfg, reports, extra, wall, 1 if violation else 0)
        for pr, r in reports.items():
            for s in r.get("scenarios", []):
                print("%-8s %-28s executions=%d transitions=%d states=%d nontrivial=%d %.1fs" % (pr, s["name"], s["executions"], s["transitions"], s["states"], s["nontrivial"], s["wall_s"]))
        if violation:
            path = write_replay(prop, tier, violation.get("profile", "checked"), violation)
            print("%s: %s" % (violation["scenario"], violation["message"]))
            for t in violation.get("trace", [])[-20:]:
                print("    " + t)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s held (%s, %.1f s)" % (prop, tier, wall))
        return 0
    except Broken as e:
        print("ERROR: no answer: %s" % e)
        return 2
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("ERROR: %r" % e)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
