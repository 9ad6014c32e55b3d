#!/usr/bin/env python3
"""Driver of the bounded exhaustive checks.

  run.py <ID> [--tier quick|thorough]   decide one property (exit 0 held, 1 VIOLATION)
  run.py --replay <file>                replay one recorded violation on the current tree
  run.py --setup                        sanity-check the toolchain and compile everything once
"""
import sys, os, json, hashlib, subprocess, time, struct, re, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ODES_REPO", "/repo")
WORK = os.environ.get("ODES_WORK", VERIF)  # scratch runs against another tree keep their files elsewhere
BUILD = os.path.join(WORK, "build")
OUT = os.path.join(WORK, "out")
sys.path.insert(0, VERIF)
from checks import CHECKS, BASEFLAGS, BASELIBS

NCPU = max(1, min(8, os.cpu_count() or 1))
OBJPOOL = ThreadPoolExecutor(NCPU)  # the compilers


def repo_files():
    r = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in (".git", "_build")]
        for f in files:
            if f.endswith((".hpp", ".h", ".cc", ".cpp", ".c")) or "coeffs" in f:
                r.append(os.path.join(d, f))
    return sorted(r)


_rh = None


def repo_hash():
    global _rh
    if _rh is None:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(f.encode())
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
        _rh = h.hexdigest()
    return _rh


def lib_hash():
    h = hashlib.sha256()
    for d in ("lib", "harness"):
        for dd, _, files in sorted(os.walk(os.path.join(VERIF, d))):
            for f in sorted(files):
                h.update(f.encode())
                h.update(open(os.path.join(dd, f), "rb").read())
    return h.hexdigest()


def unit_cmds(u, binpath):
    """compile commands of a unit: list of argv"""
    cc = u.get("cc", "g++")
    flags = u["flags"] if "flags" in u else BASEFLAGS
    flags = flags + u.get("defs", [])
    inc = [x.replace("@REPO", REPO).replace("@VERIF", VERIF) for x in u.get("inc", [])]
    inc = ["-I" + i for i in inc] + ["-I" + VERIF + "/lib", "-I" + VERIF + "/harness"]
    libs = u.get("libs", BASELIBS)
    srcs = u["src"] if isinstance(u["src"], list) else [u["src"]]
    cmds, objs = [], []
    for i, s in enumerate(srcs):
        f2, i2, c2 = flags, inc, cc
        if isinstance(s, dict):
            f2 = s.get("flags", flags) + [x.replace("@REPO", REPO) for x in s.get("defs", [])]
            c2 = s.get("cc", cc)
            if "inc" in s:
                i2 = [x for x in inc if x.startswith("-I%s/" % VERIF)] + ["-I" + x.replace("@REPO", REPO) for x in s["inc"]]
            s = s["src"]
        s = s.replace("@REPO", REPO)
        o = binpath + ".%d.o" % i
        p = s if s.startswith("/") else os.path.join(VERIF, "harness", s)
        cmds.append([c2] + f2 + i2 + ["-c", p, "-o", o])
        objs.append(o)
    link = [cc] + u.get("lflags", [f for f in flags if f.startswith("-fsanitize") or f == "-fopenmp"]) + objs + ["-o", binpath] + libs
    return cmds, link, objs


def compile_unit(u):
    key = hashlib.sha256((repo_hash() + lib_hash() + json.dumps(u, sort_keys=True) + " ".join(BASEFLAGS)).encode()).hexdigest()[:16]
    b = os.path.join(BUILD, u["name"] + "-" + key)
    if os.path.exists(b):
        return b, None
    os.makedirs(BUILD, exist_ok=True)
    # drop older binaries of the same unit
    for f in os.listdir(BUILD):
        if re.fullmatch(re.escape(u["name"]) + r"-[0-9a-f]{16}(\..*)?", f):
            try:
                os.unlink(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = b + ".tmp%d" % os.getpid()
    cmds, link, objs = unit_cmds(u, tmp)
    err = None
    def one(c):
        return c, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for group in (cmds, [link]):
        for c, p in OBJPOOL.map(one, group):
            if p.returncode != 0 and not err:
                err = "compilation failed: %s\n%s" % (" ".join(c), p.stdout[-6000:])
        if err:
            break
    for o in objs:
        if os.path.exists(o):
            os.unlink(o)
    if err:
        return None, err
    os.rename(tmp, b)
    return b, None


def readcur(cur):
    try:
        d = open(cur, "rb").read()
        n = struct.unpack_from("i", d, 0)[0]
        return ",".join(str(struct.unpack_from("i", d, 4 * (k + 1))[0]) for k in range(n))
    except Exception:
        return None


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
ENV["OMP_NUM_THREADS"] = "1"
ENV["MALLOC_PERTURB_"] = "128"  # fresh memory is 0x7f..., released memory 0x80...: what is read uninitialised is the same at every run
for k, v in ENV.items():
    ENV[k] = str(v)


def run_shard(binp, u, tier, i, n, tmpd, budget, execlimit, deadline=None):
    out = os.path.join(tmpd, "%s.%d.json" % (u["name"], i))
    cur = os.path.join(tmpd, "%s.%d.cur" % (u["name"], i))
    if deadline:
        left = deadline - time.time()
        if left < 3:
            return dict(unit=u, bin=binp, rc=0, err="", res=None, path=None, shard=i, notrun=True)
        budget = min(budget, left)
    args = [binp, "--shard", str(i), "--shards", str(n), "--out", out, "--cur", cur,
            "--budget", str(budget), "--execlimit", str(execlimit)]
    if tier == "thorough":
        args.append("--thorough")
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=budget + 4 * execlimit + 30)
        rc, err = p.returncode, p.stderr.decode("utf8", "replace")[-3000:]
    except subprocess.TimeoutExpired as e:
        rc, err = -999, "shard wall-clock timeout"
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except Exception:
            res = None
    return dict(unit=u, bin=binp, rc=rc, err=err, res=res, path=readcur(cur), shard=i)


def replay(binp, path, tier, limit):
    args = [binp, "--replay", path, "--execlimit", str(limit)]
    if tier == "thorough":
        args.append("--thorough")
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=limit * 3 + 60)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 96, "", "timeout"


def load_known():
    known = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                known.append(m.groups())
    return known


def die(msg, code=2):
    sys.stderr.write(msg + "\n")
    sys.exit(code)


def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    units = [u for u in c["units"] if tier == "thorough" or not u.get("thorough_only")]
    with ThreadPoolExecutor(NCPU) as ex:
        bins = list(ex.map(compile_unit, units))
    for u, (b, err) in zip(units, bins):
        if b is None:
            die("check %s: %s" % (pid, err))
    tcompile = time.time() - t0
    tmpd = os.path.join(OUT, "tmp-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmpd, exist_ok=True)
    budget = c.get("budget", {}).get(tier, 500 if tier == "quick" else 3000)
    deadline = t0 + 600 if tier == "quick" else None  # a check has 900 s
    execlimit = c.get("execlimit", 10)
    jobs = []
    for u, (b, _) in zip(units, bins):
        n = u.get("shards", NCPU)
        for i in range(n):
            jobs.append((b, u, tier, i, n, tmpd, budget, execlimit, deadline))
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda a: run_shard(*a), jobs))
    viols, agg = {}, dict(execs=0, transitions=0, states=0, outcomes=0, traces=0, nontrivial=0, evals=0, skipped=0)
    counters, samples, complete, maxdepth = {}, [], True, 0
    vdir = os.path.join(OUT, "replay", pid)
    shutil.rmtree(vdir, ignore_errors=True)
    crashes = 0
    soft = []
    for r in rs:
        crash = None
        if r.get("notrun"):
            complete = False
            continue
        if r["res"] is None and ((deadline and time.time() > deadline + 60 and viols) or crashes >= 4):
            complete = False  # enough is known
            continue
        if r["res"] is None:
            # the shard died: find out whether the execution it was in is to blame
            if r["rc"] == 95 and pid == "C14" and r["path"] is not None:
                # the same choices, another behaviour: what C14 excludes, if it happens again
                r2 = run_shard(r["bin"], r["unit"], tier, r["shard"], r["unit"].get("shards", NCPU), tmpd, min(budget, 120), execlimit * 3)
                if r2["res"] is None and r2["rc"] == 95:
                    viols.setdefault(r["unit"]["name"] + ":depends-on-history", []).append((r, "the same calls behave differently after other executions: %s" % r["err"][-300:], r["path"]))
                    complete = False
                    crashes += 1
                    continue
            if r["rc"] == 95:
                soft.append("check %s: divergence while replaying a prefix (unit %s): %s" % (pid, r["unit"]["name"], r["err"]))
                complete = False
                continue
            if r["path"] is None:
                soft.append("check %s: unit %s shard died (%s) %s" % (pid, r["unit"]["name"], r["rc"], r["err"]))
                complete = False
                continue
            rc, so, se = replay(r["bin"], r["path"], tier, execlimit * 2)
            if rc in (0,):
                # not reproducible alone: give the shard a second, longer chance
                r2 = run_shard(r["bin"], r["unit"], tier, r["shard"], r["unit"].get("shards", NCPU), tmpd, min(budget, 120), execlimit * 3)
                if r2["res"] is None:
                    if r2["path"] is None:
                        soft.append("check %s: unit %s shard died twice (%s)" % (pid, r["unit"]["name"], r2["rc"]))
                        complete = False
                        continue
                    if -9 in (r["rc"], r2["rc"]) or -999 in (r["rc"], r2["rc"]):
                        soft.append("check %s: unit %s: shard killed rc=%s/%s" % (pid, r["unit"]["name"], r["rc"], r2["rc"]))
                        complete = False
                        continue
                    r["path"] = r2["path"]
                    first = "; ".join([l.strip() for l in r2["err"].splitlines() if "ERROR" in l or "runtime error" in l or l.strip().startswith("#")][:6])
                    crash = (r["unit"]["name"] + ":crash-after-history", "the shard dies twice (rc %s, %s) after a history of executions, last execution given: %s" % (r["rc"], r2["rc"], first))
                else:
                    r["res"] = r2["res"]
            elif rc == 1 and "REPLAY-VIOLATION" in so:
                m = re.search(r"REPLAY-VIOLATION key=(\S+)\n\s*(.*)", so)
                crash = (m.group(1), m.group(2))
            else:
                kind = "hang" if rc == 96 else "memory-error" if rc in (99, 98) else "crash"
                first = "; ".join([l.strip() for l in se.splitlines() if "ERROR" in l or "runtime error" in l or l.strip().startswith("#")][:6])
                crash = (r["unit"]["name"] + ":" + kind, "the execution ends with %s (rc %s) %s" % (kind, rc, first or se[-400:]))
        if r["res"] is not None:
            x = r["res"]
            for k in ("execs", "transitions", "states", "outcomes", "traces", "nontrivial", "evals", "skipped"):
                agg[k] += x[k]
            for k, v in x["counters"].items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max") else counters.get(k, 0) + v
            samples += x["samples"]
            complete &= x["complete"]
            maxdepth = max(maxdepth, x["maxdepth"])
            for v in x["violations"]:
                viols.setdefault(v["key"], []).append((r, v["msg"], v["path"]))
        if crash:
            crashes += 1
            complete = False
            viols.setdefault(crash[0], []).append((r, crash[1], r["path"]))
    known = load_known()
    exitcode, nviol = 0, 0
    knownseen, history = set(), set()
    for key in sorted(viols, key=lambda k: min(len(p[2].split(",")) for p in viols[k])):
        lst = sorted(viols[key], key=lambda v: (len(v[2].split(",")), v[2]))
        confirmed = None
        for r, msg, path in lst[:3]:
            rc, so, se = replay(r["bin"], path, tier, execlimit * 3)
            if rc != 0:
                confirmed = (r, msg, path)
                break
        if confirmed is None:
            if key.endswith("-history"):
                confirmed = lst[0]
            else:
                # not reproducible alone: it may depend on the executions before it (state shared
                # between objects). Repeat the shard: the same history must show it again
                r, msg, path = lst[0]
                r2 = run_shard(r["bin"], r["unit"], tier, r["shard"], r["unit"].get("shards", NCPU), tmpd, min(budget, 200), execlimit * 3)
                again = [v for v in (r2["res"] or {}).get("violations", []) if v["key"] == key]
                if not again:
                    soft.append("check %s: a violation did not replay: %s %s" % (pid, key, lst[0][1]))
                    continue
                confirmed = (r, again[0]["msg"] + " [only after the executions before it in this shard]", again[0]["path"])
                history.add(key)
        r, msg, path = confirmed
        hit = [k for k in known if k[0] == pid and k[1] == key]
        if hit:
            if hit[0] not in knownseen:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
                knownseen.add(hit[0])
            continue
        nviol += 1
        if nviol <= 10:
            os.makedirs(vdir, exist_ok=True)
            rf = os.path.join(vdir, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80] + ".json")
            json.dump(dict(property=pid, unit=r["unit"]["name"], tier=tier, path=path, key=key, message=msg,
                           shard=(r["shard"] if key in history else None),
                           how="python3 %s/run.py --replay %s" % (VERIF, rf)), open(rf, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rf))
            print("  key=%s" % key)
            print("  %s" % msg)
        exitcode = 1
    shutil.rmtree(tmpd, ignore_errors=True)
    if soft and exitcode == 0:
        die("\n".join(soft[:5]))
    level = c["level"]
    cov = dict(executions=agg["execs"], exhaustive=bool(complete), choice_depth=maxdepth,
               distinct_outcomes=agg["outcomes"], samples=(samples[:6] or ["none"]), bound=c["bound"][tier] if isinstance(c["bound"], dict) else c["bound"],
               counters=counters, compile_s=round(tcompile, 1), units=[u["name"] for u in units])
    if level == "model_checking":
        cov.update(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["traces"])
    else:
        cov.update(evaluations=agg["evals"] or agg["execs"], distinct_nontrivial=agg["nontrivial"] or agg["states"], rule=c["rule"])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(WORK, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(WORK, "evidence", pid + ".json"), "w"), indent=1)
    if not complete and exitcode == 0:
        print("check %s: time cap hit before the space was exhausted (see evidence)" % pid)
    if exitcode == 0 and agg["execs"] == 0:
        die("check %s explored nothing" % pid)
    print("%s: %d executions, %d states, %d transitions, %d outcomes, exhaustive=%s, %.1fs (compile %.1fs)%s" %
          (pid, agg["execs"], agg["states"], agg["transitions"], agg["outcomes"], complete, time.time() - t0, tcompile,
           "" if exitcode == 0 else " -- VIOLATED"))
    return exitcode


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        u = [u for u in CHECKS[d["property"]]["units"] if u["name"] == d["unit"]][0]
        b, err = compile_unit(u)
        if b is None:
            die(err)
        if d.get("shard") is not None:  # shows only after the executions before it: the whole shard again
            tmpd = os.path.join(OUT, "tmp-replay-%d" % os.getpid())
            os.makedirs(tmpd, exist_ok=True)
            r = run_shard(b, u, d["tier"], d["shard"], u.get("shards", NCPU), tmpd, 600, 30)
            shutil.rmtree(tmpd, ignore_errors=True)
            hit = [v for v in (r["res"] or {}).get("violations", []) if v["key"] == d["key"]]
            print("\n".join("%(key)s %(path)s\n  %(msg)s" % v for v in hit) or "not seen again", "rc=%s" % r["rc"])
            return 1 if hit or r["rc"] else 0
        rc, so, se = replay(b, d["path"], d["tier"], 120)
        print(so, se, "rc=%d" % rc)
        return 1 if rc else 0
    if a and a[0] == "--setup":
        units = {}
        for pid, c in CHECKS.items():
            for u in c["units"]:
                if not u.get("thorough_only"):
                    units[u["name"]] = u
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(compile_unit, units.values()))
        bad = [e for b, e in res if b is None]
        for e in bad:
            sys.stderr.write(e + "\n")
        print("setup: %d harness binaries" % (len(res) - len(bad)))
        return 1 if bad else 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
