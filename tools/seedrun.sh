#!/bin/bash
# seedrun.sh ID...: run the check of each planted bug's property against a scratch copy with the bug
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])"); s=$(date +%s)
r=$(bash /verif/tools/try.sh patch /verif/seeded/$i/patch.diff $p 2>&1 | tail -3); e=$(date +%s); echo "$i $p $((e-s))s: $(echo "$r" | grep -c VIOLATED) $(echo "$r"|head -2|cut -c1-260|tr '\n' '|')"; done
