#!/usr/bin/env python3
"""mutate.py FILE[:from-to] COUNT SEED OUT ID...: apply COUNT small random changes, one at a time, to FILE of a scratch copy of /repo and run the
checks ID... (in this order, until one reports) on each. Self-test of the checks; survivors are printed for analysis."""
import sys, re, os, random, subprocess, shutil, json
spec, count, seed, out, ids = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:]
f, _, rng = spec.partition(":")
src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], check=True, stdout=subprocess.PIPE).stdout.decode("utf8", "replace")
lines = src.split("\n")
lo, hi = (int(x) for x in rng.split("-")) if rng else (1, len(lines))
OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=])", ["<=", ">"]), (r"(?<![<>\-])>(?![>=])", [">=", "<"]), (r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<=[\w\)\]\s])\+(?![+=])(?=[\w\(\s])", ["-"]), (r"(?<=[\w\)\]])-(?![\-=>])(?=[\w\(])", ["+"]), (r"(?<=[\w\)\]])\*(?=[\w\(])", ["/"]), (r"(?<=[\w\)\]])/(?=[\w\(])", ["*"]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bMIN\b", ["MAX"]), (r"\bMAX\b", ["MIN"]),
       (r"\bABS\((?=\w)", ["("]), (r"(?<![\w.])(\d+\.\d*(?:e[+-]?\d+)?|\d+e[+-]?\d+)", ["C*"]), (r"(?<![\w.])\d+(?![\w.])", ["I+"]), (r"!(?=[a-z])", [""]), (r"^(\s*)(?!.*\b(?:return|int|double|bool|throw|const)\b)[\w\(\[\+\-][^{}:#]*;\s*$", ["DEL"])]
cand = []
incom = False
for n in range(lo - 1, min(hi, len(lines))):
    l = lines[n]
    code = re.sub(r"//.*", "", l)
    if incom or "/*" in code:
        incom = "*/" not in code
        continue
    if re.match(r"\s*#|\s*template|\s*throw|\s*cout|\s*using|\s*class|\s*struct|\s*namespace", code) or "OdesException" in code or "<<" in code or not code.strip():
        continue
    for pat, reps in OPS:
        if "DEL" not in reps and re.search(r"template|fortranVectorF<|typedef|static_cast|vector<|Matrix<|::", code) and ("<" in pat or ">" in pat):
            continue
        for m in re.finditer(pat, code):
            for r in reps:
                if r == "DEL":
                    new = m.group(1) + ";" + ("\r" if l.endswith("\r") else "")
                elif r == "C*":
                    v = float(m.group(0).replace("d", "e"))
                    new = code[:m.start()] + repr(v * 1.01 if v else 0.01) + code[m.end():]
                elif r == "I+":
                    new = code[:m.start()] + str(int(m.group(0)) + 1) + code[m.end():]
                else:
                    new = code[:m.start()] + r + code[m.end():]
                if new != code:
                    cand.append((n, code.strip(), new))
random.Random(seed).shuffle(cand)
d, w = "/tmp/mut/r%d" % os.getpid(), "/tmp/mut/w%d" % os.getpid()
log = open(out, "a")
done = 0
tried = set()
for n, old, new in cand:
    if done >= count:
        break
    if (n, new) in tried:
        continue
    tried.add((n, new))
    subprocess.run(["cp", "-a", "/repo", d], check=True); subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    ll = list(lines)
    ll[n] = new
    open(d + "/" + f, "w", newline="").write("\n".join(ll))
    res, build = "SURVIVED", True
    for i in ids:
        e = dict(os.environ, ODES_WORK=w, ODES_REPO=d)
        os.makedirs(w, exist_ok=True)
        try:
            p = subprocess.run(["python3", "/verif/run.py", i], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            o = p.stdout
            rc = p.returncode
        except subprocess.TimeoutExpired:
            o, rc = "timeout", 9
        if "compilation failed" in o:
            build = False
            break
        if rc:
            res = "%s rc %d %s" % (i, rc, (re.findall(r"key=(\S+)", o) or [o[-200:]])[0])
            break
    shutil.rmtree(d)
    shutil.rmtree(w, ignore_errors=True)
    if not build:
        continue
    done += 1
    log.write("%s:%d  %s  ==>  %s   %s\n" % (os.path.basename(f), n + 1, old, new.strip(), res))
    log.flush()
