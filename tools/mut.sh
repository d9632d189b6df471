#!/bin/bash
# tools/mut.sh FILE SED-EXPR PROP...: quick checks against a copy of /repo with the edit applied
d=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/. $d
python3 - "$d/$1" "$2" <<'P'
import sys
f,e=sys.argv[1:3]; a,b=e.split("=>",1); t=open(f).read()
a=a.encode().decode("unicode_escape"); b=b.encode().decode("unicode_escape")
assert t.count(a)>=1,"not found"
open(f,"w").write(t.replace(a,b,1))
P
shift 2
for p in "$@"; do VERIF_REPO=$d python3 check.py $p 2>&1 | grep -a "VIOLATION\|ERROR\| ok " | cut -c1-200; done
rm -rf $d
