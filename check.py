#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property against /repo's current working tree.

usage: check.py ID [quick|thorough]      run the check
       check.py --replay FILE            rerun the groups that produced the violations in FILE
       check.py --group ID GROUP VARIANT [quick|thorough]   run one group (debugging)

Exit status: 0 the property held on everything explored, 1 violation, 2 no verdict (build failure, lost process).
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SEED = os.environ.get("VERIF_SEED", "1")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

BORROWS = {"A01": ["C12", "C13", "C14", "C15", "C17"]}  # a check that runs the workloads of others

BUILDS = {
    "plain": [],
    "purego": ["-tags=purego"],
    "race": ["-race", "-tags=purego"],
    "raceavx": ["-race"],
    "asan": ["-asan", "-tags=purego"],
    "regen": [],  # with the assembly regenerated by internal/asmgen overlaid
}
VARIANTS = {  # variant: (build, extra environment)
    "avx": ("plain", {}),
    "cpuoff": ("plain", {"GODEBUG": "cpu.all=off"}),
    "purego": ("purego", {}),
    "race": ("race", {}),
    "raceavx": ("raceavx", {}),
    "asan": ("asan", {"ASAN_OPTIONS": "detect_leaks=0"}),
    "regen": ("regen", {}),
    # as on machines with few processors
    "cpu1": ("plain", {}),
    "cpu2": ("plain", {}),
    "cpu3": ("race", {}),
    "cpu5": ("plain", {}),
}


def fewer_cpus(variant):
    """What a process does before it starts in order to see fewer processors."""
    m = re.match(r"cpu(\d)$", variant)
    if not m:
        return None

    def limit():
        try:
            have = sorted(os.sched_getaffinity(0))
            k = os.getpid() % len(have)
            os.sched_setaffinity(0, set((have[k:] + have[:k])[:int(m.group(1))]))
        except OSError:
            pass
    return limit


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", GOMEMLIMIT="6GiB")
    e.pop("GODEBUG", None)
    return e


def files_of(pid):
    """Files of the harness that the check of pid is built from: shared ones plus its own."""
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.go"))):
        b = os.path.basename(f)
        m = re.match(r"^([a-z]\d\d)(_.*)?\.go$", b)
        if m and m.group(1).upper() != pid and m.group(1).upper() not in BORROWS.get(pid, []):
            continue
        out.append(f)
    return out


def stage(pid, work):
    src = os.path.join(work, "src")
    os.makedirs(src)
    for f in files_of(pid) + [os.path.join(HERE, "harness", x) for x in ("go.mod", "go.sum")]:
        shutil.copy(f, src)
    return src


class RegenError(Exception):
    """The assembly generator of the repository does not produce usable kernels."""


def regen_overlay(work):
    """Runs the go:generate lines of internal/asmgen in a scratch copy from which every generated file was removed;
    returns an overlay file that puts the emitted kernels and stubs in place of the committed ones."""
    copy = os.path.join(work, "regen")
    shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git"))
    gone = []
    for d, _, fs in os.walk(copy):
        for f in fs:
            if f.endswith("_amd64.s") or f.endswith("_amd64.go"):
                p = os.path.join(d, f)
                with open(p) as fh:
                    if fh.readline().startswith("// Code generated by command: go run"):
                        gone.append(os.path.relpath(p, copy))
                        os.remove(p)
    gen = os.path.join(copy, "internal/asmgen")
    r = subprocess.run(["go", "build", "-o", os.devnull, "."], cwd=gen, env=goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("internal/asmgen does not build:\n" + r.stdout)
    r = subprocess.run(["go", "generate", "./..."], cwd=gen, env=goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RegenError("the generator failed:\n" + r.stdout)
    missing = [p for p in gone if not os.path.exists(os.path.join(copy, p))]
    if missing or not gone:
        raise RegenError("the generator did not produce " + (", ".join(missing) or "any committed file"))
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, p): os.path.join(copy, p) for p in gone}}, f)
    return ov


def build(name, src, work):
    out = os.path.join(work, "vh_" + name)
    cmd = ["go", "build"] + BUILDS[name] + ["-o", out]
    if name == "regen":
        cmd += ["-overlay", regen_overlay(work)]
    r = subprocess.run(cmd + ["."], cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and name == "regen":  # the plain build went through before
        raise RegenError("the generated kernels do not build:\n" + r.stdout[-6000:])
    if r.returncode:
        raise RuntimeError("build %s failed:\n%s" % (name, r.stdout[-6000:]))
    return out


def run_group(bins, work, pid, group, variant, tier, timeout, deadline):
    timeout = max(10, min(timeout, deadline - time.time()))
    short = timeout < 60  # no fair share of time left: a timeout is then no verdict
    b, extra = VARIANTS[variant]
    tag = re.sub(r"\W", "_", "%s_%s_%s" % (pid, group, variant))
    out = os.path.join(work, tag + ".json")
    env = goenv()
    env.update(extra)
    racelog = os.path.join(work, tag + ".race")
    if b.startswith("race"):
        env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + racelog
    env["VH_WORK"] = work
    env["VH_REPO"] = REPO
    for n, p in bins.items():
        env["VH_BIN_" + n] = p
    t0 = time.time()
    cmd = [bins[b], "-id", pid, "-group", group, "-variant", variant, "-tier", tier, "-seed", SEED, "-out", out]
    for attempt in (0, 1):
        timedout = False
        with open(os.path.join(work, tag + ".err"), "wb") as ef:
            p = subprocess.Popen(cmd, env=env, stdout=ef, stderr=subprocess.STDOUT, cwd=work, preexec_fn=fewer_cpus(variant))
            flooded = False  # enough races reported: the rest of the run adds nothing
            until = time.time() + timeout
            while p.poll() is None and time.time() < until and not flooded:
                try:
                    p.wait(min(1, max(0.01, until - time.time())))
                except subprocess.TimeoutExpired:
                    flooded = sum(os.path.getsize(f) for f in glob.glob(racelog + "*")) > 1 << 20
            if flooded:
                p.kill()
                p.wait()
            elif p.poll() is None:
                timedout = True
                p.send_signal(3)  # goroutine dump
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
        if p.returncode == -9 and not timedout and not flooded and attempt == 0:
            continue  # killed from outside (memory): once more
        break
    with open(os.path.join(work, tag + ".err"), "rb") as ef:
        err = ef.read(200000).decode("utf-8", "replace")
    res = {"group": group, "variant": variant, "wall": time.time() - t0, "violations": [], "lost": None, "rep": None}
    rep = None
    if os.path.exists(out):
        with open(out) as f:
            rep = json.load(f)
    if flooded:
        pass
    elif timedout and short:
        res["lost"] = "no time left to run the group"
    elif timedout:
        res["violations"].append({"case": "group", "msg": "did not terminate within %d s\n%s" % (timeout, "\n".join(
            l for l in err.splitlines() if "/repo/" in l or "/harness/" in l)[:4000])})
    elif rep is None or not rep.get("Done"):
        if p.returncode == -9 or "out of memory" in err or "cannot allocate memory" in err:
            res["lost"] = "process lost (rc=%s): %s" % (p.returncode, err[-500:])
        elif p.returncode == 3:
            res["lost"] = "harness refused: " + err[-500:]
        else:
            res["violations"].append({"case": "process", "msg": "process died (rc=%s):\n%s" % (p.returncode, err[:5000])})
    if rep:
        res["rep"] = rep
        res["violations"] += rep.get("Violations") or []
        res["nviol"] = rep.get("NViol", 0)
    races = []
    for f in glob.glob(racelog + "*"):
        with open(f, errors="replace") as fh:
            races += [x for x in fh.read(4 << 20).split("==================") if "DATA RACE" in x]
    if races:
        for x in races[:5]:
            res["violations"].append({"case": "race detector", "msg": x.strip()[:3000]})
        res["races"] = len(races)
    return res


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(known, pid, group, v):
    for k in known:
        if k["property"] != pid or k.get("status") == "fixed":
            continue
        if k.get("group") and not re.fullmatch(k["group"], group):
            continue
        if re.search(k["case"], v["case"]) and re.search(k["message"], v["msg"]):
            return k
    return None


def main():
    a = sys.argv[1:]
    sys.path.insert(0, os.path.join(HERE, "tools"))
    only = None
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            rp = json.load(f)
        global SEED
        pid, tier, SEED = rp["property"], rp["tier"], str(rp["seed"])
        only = {(v["group"], v["variant"]) for v in rp["violations"]}
    elif a and a[0] == "--group":
        pid, tier = a[1], (a[4] if len(a) > 4 else "quick")
        only = {(a[2], a[3])}
    else:
        pid = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if only is None and os.path.exists(ev_path):
        os.remove(ev_path)
    work = tempfile.mkdtemp(prefix="vh_")
    try:
        return run(pid, tier, only, work, t0, ev_path)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(pid, tier, viol, nviol):
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, "%s-%d.json" % (pid, os.getpid()))
    with open(rp, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": SEED, "violations": viol[:200],
                   "rerun": "python3 /verif/check.py --replay " + rp}, f, indent=1)
    for v in viol[:8]:
        print("  [%s/%s] %s: %s" % (v["group"], v["variant"], v["case"], v["msg"][:600]))
    if len(viol) > 8:
        print("  ... %d violations in total" % nviol)
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def run(pid, tier, only, work, t0, ev_path):
    src = stage(pid, work)
    try:
        bins = {"plain": build("plain", src, work)}
        info = json.loads(subprocess.run([bins["plain"], "-list"], stdout=subprocess.PIPE, check=True).stdout)
        groups = [g for g in info["Groups"] if g["ID"] == pid]
        jobs = []
        for g in groups:
            for v in (g["Quick"] if tier == "quick" else g["Thorough"]) or []:
                if only is None or (g["Name"], v) in only:
                    jobs.append((g["Name"], v))
        if only:
            for x in only:
                if x not in jobs and any(g["Name"] == x[0] for g in groups):
                    jobs.append(x)
        if not jobs:
            print("no groups for", pid)
            return 2
        need = sorted(({VARIANTS[v][0] for _, v in jobs} | set((info.get("Uses") or {}).get(pid) or [])) - {"plain"})
        with cf.ThreadPoolExecutor(2) as ex:
            for n, b in zip(need, ex.map(lambda n: build(n, src, work), need)):
                bins[n] = b
    except RegenError as e:
        return report(pid, tier, [{"group": "generator", "variant": "regen", "case": "generator", "msg": str(e)}], 1)
    except RuntimeError as e:
        print(e)
        print("NO VERDICT: build failed")
        return 2
    tbuild = time.time() - t0
    # generous watchdogs: groups of the quick tier take seconds, and the whole check stays far below its 900 s
    timeout = 360 if tier == "quick" else 3 * 3600
    deadline = t0 + (700 if tier == "quick" else 12 * 3600)
    heavy = {g["Name"]: g.get("Weight", 0) for g in groups}
    jobs.sort(key=lambda j: -heavy.get(j[0], 0))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda j: run_group(bins, work, pid, j[0], j[1], tier, timeout, deadline), jobs))

    known = load_known()
    evals = distinct = 0
    obs, mx, samples, viol, hit, lost = {}, {}, [], [], {}, []
    per = []
    dist_by_group = {}
    nviol = 0
    for r in results:
        rep = r["rep"]
        if r["lost"]:
            lost.append("%s/%s: %s" % (r["group"], r["variant"], r["lost"]))
        if rep:
            evals += rep["Evaluations"]
            # the same case in another build variant is not counted as distinct
            dist_by_group[r["group"]] = max(dist_by_group.get(r["group"], 0), rep["Distinct"])
            for k, v in (rep["Obs"] or {}).items():
                obs[k] = obs.get(k, 0) + v
            for k, v in (rep["ObsMax"] or {}).items():
                mx[k] = max(mx.get(k, v), v)
            samples += ["%s: %s" % (r["group"], s) for s in (rep["Samples"] or [])[:2]]
            per.append({"group": r["group"], "variant": r["variant"], "evaluations": rep["Evaluations"],
                        "wall_s": round(r["wall"], 1)})
            if rep["Evaluations"] == 0:
                lost.append("%s/%s observed nothing" % (r["group"], r["variant"]))
        nk = 0
        for v in r["violations"]:
            k = match_known(known, pid, r["group"], v)
            if k:
                hit[k["what"]] = k
                nk += 1
            else:
                viol.append({"group": r["group"], "variant": r["variant"], **v})
        nviol += max(0, max(r.get("nviol", 0), len(r["violations"])) - nk)
    distinct = sum(dist_by_group.values())
    for n in info["Needs"] or []:
        if n["ID"] == pid and only is None and obs.get(n["Obs"], 0) < n["Min"]:
            lost.append("monitor saw only %d %s" % (obs.get(n["Obs"], 0), n["Obs"]))
    wall = time.time() - t0
    if only is None:
        ev = {
            "property": pid, "tier": tier, "seed": int(SEED) if SEED.lstrip("-").isdigit() else 0,
            "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct,
                "rule": info["Rules"].get(pid, "a case is one key-value of the workload generator; distinct cases are counted by hash of their key"),
                "samples": samples[:40] or ["none"],
                "monitor_observations": obs, "monitor_maxima": mx,
                "build_variants": sorted({j[1] for j in jobs}), "runs": per, "build_s": round(tbuild, 1),
                "known_findings_seen": sorted(hit),
            },
            "wall_s": round(wall, 2), "violations": nviol,
            "assumptions": info["Assumes"].get(pid, []),
        }
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if os.environ.get("VERIF_VERBOSE"):
        for p in sorted(per, key=lambda p: -p["wall_s"])[:12]:
            print("  %(group)s/%(variant)s %(evaluations)d evaluations %(wall_s).1fs" % p)
        print("  obs", obs)
        print("  max", mx)
    print("%s %s: %d evaluations, %d distinct, %d runs, build %.1fs, wall %.1fs" % (pid, tier, evals, distinct, len(jobs), tbuild, wall))
    if viol:
        return report(pid, tier, viol, nviol)
    if lost:
        for l in lost:
            print("NO VERDICT:", l)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
