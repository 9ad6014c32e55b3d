#!/bin/bash
# seedcheck.sh ID...: confirm planted bugs in /repo itself (demo quiet before, builds, tests pass, demo fails), then undo
cd /repo; for i in "$@"; do d=/verif/seeded/$i
bash $d/demo.sh >/tmp/sc.$$ 2>&1; a=$?
git apply $d/patch.diff || { echo "$i: does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/sc.b.$$ 2>&1; b=$?
bash /opt/vp/test.sh /tmp/sc.o.$$ >/dev/null 2>&1
f=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sc.o.$$'));print([t for t in b['stable'] if t not in o['passed']])")
bash $d/demo.sh >/tmp/sc2.$$ 2>&1; c=$?
git checkout -q -- .
echo "$i: demo unchanged=$a build=$b failing tests=$f demo patched=$c  $( [ $a = 0 -a $b = 0 -a "$f" = "[]" -a $c != 0 -a $c != 8 ] && echo OK || echo BAD)"; [ $a = 0 ] || head -5 /tmp/sc.$$; head -3 /tmp/sc2.$$
rm -f /tmp/sc.$$ /tmp/sc2.$$ /tmp/sc.b.$$ /tmp/sc.o.$$; done
bash /opt/vp/build.sh >/dev/null 2>&1
