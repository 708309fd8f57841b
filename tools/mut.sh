#!/bin/bash
# mut.sh FILE 'python expression on s' PROP...: run checks against a mutated copy of /repo
rm -rf /tmp/mutrepo; mkdir -p /tmp/mutrepo; cp -a /repo/include /repo/src /tmp/mutrepo/
python3 - "$1" "$2" <<'P' || exit 9
import sys
p='/tmp/mutrepo/'+sys.argv[1]
s=open(p).read(); o=s
s=eval(sys.argv[2])
assert s!=o, "no change"
open(p,'w').write(s)
P
for q in "${@:3}"; do echo "--- $q: $2"; VERIF_REPO=/tmp/mutrepo python3 /verif/check.py $q 2>&1 | grep -E "VIOLATION|held|ERROR|error:" | head -${MUTLINES:-2}; done
