#!/usr/bin/env python3
"""mkseed.py FILE...: write /verif/seeded/<id> from seed descriptions (tools/seeds/*.txt) against /repo's HEAD.
A description: lines 'id:', 'property:', 'needs:', 'breaks:', 'flags:', 'libs:', then blocks '@@ file', '-----old', '-----new', '-----end', and '@@demo' up to the end."""
import sys, os, subprocess, json, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    s = open(f).read()
    head, rest = s.split("\n@@", 1)
    h = dict(re.findall(r"^(\w+): *(.*)$", head, re.M))
    d = os.path.join(V, "seeded", h["id"])
    os.makedirs(d, exist_ok=True)
    body, demo = ("@@" + rest).split("@@demo\n", 1)
    t = "/tmp/mkseed.%d" % os.getpid()
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t], check=True)
    try:
        for m in re.finditer(r"@@ (\S+)\n-----old\n(.*?)\n-----new\n(.*?)\n?-----end", body, re.S):
            p = os.path.join(t, m[1])
            c = open(p, newline="").read()
            crlf = "\r\n" in c
            old, new = m[2], m[3]
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = c.count(old)
            if n != 1:
                sys.exit("%s: %d occurrences of\n%s" % (f, n, old))
            open(p, "w", newline="").write(c.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t])
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    inc = " ".join("-I common/include -I Radau5-NG/include -I Rodas-NG/include".split() if not h.get("inc") else ["-I common/include"] + ["-I " + x for x in h["inc"].split()])
    open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# run with cwd = the repository; 0: the property holds, 1: it does not
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -DGCC -w %s %s "$here/demo.cpp" -o "$t/demo" %s || exit 8
timeout 100 "$t/demo"
""" % (h.get("flags", ""), inc, h.get("libs", "-llapack -lblas")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for x in ("prob.hpp", "leak.hpp"):
        if x in demo: shutil.copy(os.path.join(V, "tools/seeds", x), d)
    json.dump(dict(property=h["property"], needs=h["needs"], what_it_breaks=h["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(h["id"], "written")
