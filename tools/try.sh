#!/bin/bash
# try.sh revert <commit> ID...   |  try.sh patch <file> ID...     run checks against a scratch copy of /repo
mode=$1; what=$2; shift 2; d=/tmp/try.$$; cp -a /repo $d || exit 9; git -C $d checkout -q -- .
mkdir -p $d.w; cd $d; rm -rf $d/_build
if [ $mode = revert ]; then git revert -n $what >/dev/null 2>&1 || { echo "CONFLICT reverting $what"; git status --short | head; rm -rf /tmp/try.$$ /tmp/try.$$.w; exit 8; }; else git apply $what 2>/dev/null || { rm -rf /tmp/try.$$ /tmp/try.$$.w; exit 8; }; fi
cd /verif; for i in "$@"; do ODES_WORK=$d.w ODES_REPO=$d timeout 1500 python3 run.py $i 2>&1 | tail -${LINES_OUT:-3} | cut -c1-500; done
rm -rf /tmp/try.$$ /tmp/try.$$.w
