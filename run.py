#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [--tier quick|thorough] [--seed N]
   run.py replay <replay file>      reruns the recorded failing case
   run.py setup                     prebuilds every variant and harness

exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B  # noqa: E402
from checks import PROGRAMS, PROPS  # noqa: E402

SLOTS = int(os.environ.get("VERIF_JOBS", "8"))
T0 = time.time()
SAN = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": f"halt_on_error=0:exitcode=0:second_deadlock_stack=1:report_signal_unsafe=0:suppressions={HERE}/harness/tsan.supp",
}


def blog(s):
    if "compiled," in s:
        log(s)


def log(s):
    print(s, file=sys.stderr, flush=True)


def prog_tuple(name):
    p = PROGRAMS[name]
    srcs = [f"{HERE}/harness/{s}" if not s.startswith("@") else f"{B.SRC}/{s[1:]}" for s in p.get("srcs", [name + ".cpp"])]
    return (name, srcs, p.get("flags", []), p.get("ld", []))


def build_for(progs_by_variant):
    """-> {(variant, prog): exe}, {prog: error}"""
    exes, failed = {}, {}
    for v, progs in progs_by_variant.items():
        byg = {}
        for p in progs:
            byg.setdefault(tuple(PROGRAMS[p].get("groups", B.ALL_GROUPS)), []).append(p)
        for g, ps in byg.items():
            opt = [p for p in ps if PROGRAMS[p].get("optional")]
            got = B.build(v, [prog_tuple(p) for p in ps], list(g), blog, optional=opt, failed=failed)
            for p, e in got.items():
                exes[(v, p)] = e
    return exes, failed


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?)(?::\d+)*(?: \(|$|\s)")


def classify(rc, err):
    """violation key of an abnormal end, or None when it says nothing about the program (killed)"""
    kind = None
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        kind = m.group(2)
    m2 = re.search(r"runtime error: (.*)", err)
    if m2 and not m:
        kind = "ub:" + re.sub(r"-?\b\d[\w.+-]*|0x[0-9a-f]+", "N", m2.group(1))[:90]
    if not kind:
        m = re.search(r"terminate called.*?(?:instance of '([^']*)'|recursively|without)", err, re.S)
        if m:
            kind = "terminate:" + (m.group(1) or "?")
        elif "libc++abi" in err:
            kind = "terminate"
    if not kind:
        if rc < 0:
            try:
                kind = "signal:" + signal.Signals(-rc).name
            except ValueError:
                kind = f"signal:{-rc}"
        else:
            kind = f"exit:{rc}"
    frame = ""
    for m in FRAME.finditer(err):
        fn, path = m.group(1), m.group(2)
        if "/helics/" in path and path.startswith(B.REPO):
            frame = re.sub(r"\(.*", "", fn).strip().split(" ")[-1]
            break
    return f"crash:{kind}" + (f":{frame}" if frame else "")


def tsan_reports(err):
    out = []
    for blk in re.split(r"^={18}$", err, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
        if not m:
            continue
        frames = []
        sec = re.split(r"\n\n", blk)
        for s in sec[:2]:
            for f in FRAME.finditer(s):
                if f.group(2).startswith(B.REPO) and "/helics/" in f.group(2):
                    frames.append(re.sub(r"\(.*", "", f.group(1)).strip().split(" ")[-1])
                    break
        out.append(("tsan:" + m.group(1).strip() + ":" + "|".join(sorted(frames)), blk.strip()))
    return out


class Res:
    def __init__(self):
        self.viol, self.stats, self.samples, self.inconc, self.hangs = [], {}, [], [], []
        self.distinct = set()
        self.cases = 0
        self.done = False
        self.last = -1
        self.errors = []


def run_one(exe, job, prop, seed, cases, tier, only=None, timeout=None, watchdog=None):
    r = Res()
    work = tempfile.mkdtemp(prefix="vrun")
    out = f"{work}/out.txt"
    cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--out", out,
           "--watchdog", str(watchdog or job.get("watchdog", 60)), "--prop", prop]
    if job.get("profile"):
        cmd += ["--profile", job["profile"]]
    cmd += [str(a) for a in job.get("args", [])]
    if tier == "thorough":
        cmd += ["--thorough"]
    if only is not None:
        cmd += ["--only", str(only)]
    if job.get("netns"):
        cmd = ["unshare", "-Urn", "sh", "-c", 'ip link set lo up; exec "$@"', "sh"] + cmd
    env = dict(os.environ, **SAN, HOME=work, TMPDIR=work, **job.get("env", {}))
    errf = open(f"{work}/err.txt", "w")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, cwd=work, env=env, start_new_session=True)
    killed = False
    try:
        p.wait(timeout or job.get("timeout", 240))
    except subprocess.TimeoutExpired:
        killed = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    errf.close()
    with open(f"{work}/err.txt", errors="replace") as f:
        err = f.read()
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for ln in f:
                ln = ln.rstrip("\n")
                t = ln.split("\t")
                if t[0] == "VIOL" and len(t) >= 5:
                    r.viol.append((prop if t[1] == "*" or job.get("any") else t[1], t[2], int(t[3]), t[4]))
                elif t[0] == "STAT" and len(t) == 3:
                    r.stats[t[1]] = r.stats.get(t[1], 0) + int(t[2])
                elif t[0] == "SAMPLE":
                    r.samples.append(t[1])
                elif t[0] == "INCONC":
                    r.inconc.append((int(t[1]), t[2]))
                elif t[0] == "HANG":
                    r.hangs.append((int(t[1]), t[2] if len(t) > 2 else ""))
                elif ln.startswith("D "):
                    r.distinct.add(ln[2:])
                elif t[0] == "CASE" and len(t) == 2 and t[1].isdigit():
                    r.last = int(t[1])
                    r.cases += 1
                elif ln == "DONE":
                    r.done = True
    for key, blk in tsan_reports(err):
        r.viol.append((prop, key, r.last, B_esc(blk)))
    if killed:
        r.inconc.append((r.last, "worker stopped at its time limit"))
    elif not r.done and not r.hangs:
        if p.returncode == -signal.SIGKILL:
            r.inconc.append((r.last, "worker was killed (memory?)"))
        elif p.returncode in (126, 127) or (r.last < 0 and p.returncode in (1, 2, 3)):
            r.errors.append(f"harness did not start: rc={p.returncode} {err[-600:]}")
        else:
            m = re.search(r"ERROR: \w+Sanitizer|runtime error:|terminate called|libc\+\+abi", err)
            r.viol.append((prop, classify(p.returncode, err), r.last, B_esc(err[max(0, m.start() - 200):m.start() + 4500] if m else err[-4500:])))
    shutil.rmtree(work, ignore_errors=True)
    return r


def B_esc(s):
    return s.replace("\n", "\\n").replace("\t", " ")


def known():
    p = f"{HERE}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def check(prop, tier, seed):
    spec = PROPS[prop]
    jobs = spec["jobs"]
    need = {}
    for j in jobs:
        need.setdefault(j.get("variant", "asan"), []).append(j["prog"])
    for v in need:
        need[v] = sorted(set(need[v]))
    try:
        exes, failed = build_for(need)
    except B.Fail as e:
        log(str(e))
        return 2
    tb = time.time() - T0
    units = []
    skipped = []
    ti = 0 if tier == "quick" else 1
    for ji, j in enumerate(jobs):
        key = (j.get("variant", "asan"), j["prog"])
        if key not in exes:
            skipped.append(f"{j['prog']}: white-box harness does not fit this tree: {failed.get(j['prog'], '')[:300]}")
            continue
        n = j["cases"][ti]
        w = j.get("workers", (8, 8))[ti]
        if n <= 0:
            continue
        for k in range(w):
            units.append((j, exes[key], (seed * 1000003 + ji * 10007 + k * 101) % (1 << 62), max(1, n // w), len(units)))
    if not units:
        log("nothing to run: " + "; ".join(skipped))
        return 2
    results = []
    deadline = T0 + float(os.environ.get("VERIF_LIMIT", "840" if tier == "quick" else "14000"))

    def go(u):
        j, exe, sd, n, _ = u
        left = deadline - 60 - time.time()
        if left < 5:
            r = Res()
            r.inconc.append((-1, "no time left for this worker"))
            return u, r
        return u, run_one(exe, j, prop, sd, n, tier, timeout=min(left, j.get("timeout", 240) * (1 if ti == 0 else 20)))
    wide = [u for u in units if not u[0].get("serial")]
    serial = [u for u in units if u[0].get("serial")]
    with cf.ThreadPoolExecutor(SLOTS) as ex:
        for u, r in ex.map(go, wide):
            results.append((u, r))
    for u in serial:
        results.append(go(u))
    viols = {}
    tot, inconc, samples, distinct, cases, errors = {}, [], [], set(), 0, []
    for u, r in results:
        j, exe, sd, n, _ = u
        cases += r.cases
        for k, v in r.stats.items():
            tot[k] = tot.get(k, 0) + v
        samples += r.samples[:2]
        pre = f"{j['prog']}/{j.get('profile', '')}/"
        distinct |= {pre + d for d in r.distinct}
        inconc += [f"case {c}: {w}" for c, w in r.inconc]
        errors += r.errors
        for (pp, key, c, d) in r.viol:
            if pp == prop:
                viols.setdefault(key, (u, c, d))
            else:
                tot["reports_for_other_properties"] = tot.get("reports_for_other_properties", 0) + 1
    # hangs: the same case must hang again, alone and with a longer watchdog, before it counts
    hangs = [(u, c, d) for u, r in results for c, d in r.hangs]
    for (u, c, d) in hangs[:3]:
        j, exe, sd, n, _ = u
        again = 0
        tries = 0
        for _ in range(3):
            if time.time() > deadline - 75:
                break
            tries += 1
            rr = run_one(exe, j, prop, sd, n, tier, only=c, timeout=100, watchdog=min(60, j.get("watchdog", 60)))
            if rr.hangs:
                again += 1
                d = rr.hangs[0][1]
                break
        if again:
            viols.setdefault("hang", (u, c, d))
        else:
            inconc.append(f"case {c} (seed {sd}) exceeded its watchdog once, not again in {tries} reruns: {d[:300]}")
    tot["watchdog_expiries"] = len(hangs)
    kf = known()
    new = {}
    for key, (u, c, d) in viols.items():
        hit = False
        for f in kf["findings"]:
            if f["property"] == prop and re.fullmatch(f["key"], key) and (not f.get("detail") or re.search(f["detail"], d)):
                hit = True
                f["seen"] = True
        if not hit:
            new[key] = (u, c, d)
    for f in kf["findings"]:
        if f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']}" + ("" if f.get("seen") else " (not reached in this run)"))
    vlist = []
    if new:
        os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
    for key, (u, c, d) in sorted(new.items()):
        j, exe, sd, n, _ = u
        rp = f"{HERE}/evidence/replay/{prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json"
        json.dump({"property": prop, "key": key, "prog": j["prog"], "variant": j.get("variant", "asan"), "job": j, "seed": sd,
                   "cases": n, "case": c, "tier": tier, "detail": d}, open(rp, "w"), indent=1)
        vlist.append((key, rp, d))
    cov = {"evaluations": tot.get(spec.get("evals", "cases"), cases) or cases, "distinct_nontrivial": len(distinct),
           "rule": spec["rule"], "samples": samples[:4] or ["(none)"], "cases": cases,
           "monitored": {k: v for k, v in sorted(tot.items())}, "workers": len(results),
           "inconclusive": inconc[:20], "inconclusive_count": len(inconc), "build_s": round(tb, 1)}
    if skipped:
        cov["skipped_harnesses"] = skipped
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - T0, 2),
          "violations": len(vlist)}
    if spec.get("assumptions"):
        ev["assumptions"] = spec["assumptions"]
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop}: {cases} cases, {len(distinct)} distinct, {len(inconc)} inconclusive, build {tb:.0f}s, wall {time.time() - T0:.0f}s")
    if vlist:
        for key, rp, d in vlist[:8]:
            log(f"  {key}: {d[:1500]}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        log("\n".join(errors[:5]))
        return 2
    if not distinct:
        log("the run observed nothing")
        return 2
    print(f"OK property={prop} evaluations={cov['evaluations']} distinct={len(distinct)}")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        need = {}
        for p in PROPS.values():
            for j in p["jobs"]:
                need.setdefault(j.get("variant", "asan"), set()).add(j["prog"])
        try:
            build_for({v: sorted(s) for v, s in need.items()})
        except B.Fail as e:
            log(str(e))
            return 1
        return 0
    if a and a[0] == "replay":
        d = json.load(open(a[1]))
        exes, _ = build_for({d["variant"]: [d["prog"]]})
        r = run_one(exes[(d["variant"], d["prog"])], d["job"], d["property"], d["seed"], d["cases"], d["tier"],
                    only=d["case"] if d["case"] >= 0 else None)
        for v in r.viol:
            print(v)
        print("hangs:", r.hangs, "inconclusive:", r.inconc)
        return 1 if r.viol or r.hangs else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
