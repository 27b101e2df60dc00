#!/bin/sh
# Development aid: tool/fixc.sh CXX "what failed" files...   commits the files of /repo as one repair and records it.
id="$1"; m="$2"; shift 2
cd /repo && git add "$@" && git commit -qm "fix: $m" && python3 /verif/tool/fixed.py "$id $m" >/dev/null
