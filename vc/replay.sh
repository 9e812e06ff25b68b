#!/bin/bash
# replay.sh HARNESS.cpp FUNCTION REPLAYFILE : executes the contract on the recorded input against /repo's code
set -e
cd "$(dirname "$0")"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
python3-vt - "$1" "$W" <<'P'
import sys, run, re
p, w = sys.argv[1:3]
import os
p = p if os.path.isabs(p) else os.path.join(run.VERIF, p)
fo = {}
for x in re.findall(r"^//@ file (.*)$", open(p).read(), re.M):
    fo.update(run.parse_opts(x))
if fo.get("prepare"):
    import prepare
    getattr(prepare, fo["prepare"])(run.REPO, w)
e, err = run.build_native((p, w, fo))
print(err)
os.rename(e, w + "/exe")
P
grep INPUT "$3" > "$W/in.txt" || true
ASAN_OPTIONS=detect_leaks=0:handle_segv=0:handle_abort=0 "$W/exe" "$2" --replay "$W/in.txt"
