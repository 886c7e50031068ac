#!/bin/bash
# mut.sh FILE PYEXPR CHECK...: replace text (old=>new separated by '=>') in /repo/FILE, run the checks, restore.
f=/repo/discs/$1; pat="$2"; shift 2
python3 - "$f" "$pat" <<'P' || exit 9
import sys
f,p=sys.argv[1:]
a,b=p.split('=>',1)
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
s=open(f).read()
assert a in s, 'pattern not found'
open(f,'w').write(s.replace(a,b,1))
P
for c in "$@"; do timeout 600 bash /verif/check.sh $c quick 2>&1 | cut -c1-220 | grep -v "^ *config" | head -4; echo "$c rc=${PIPESTATUS[0]}"; done
git -C /repo checkout -q -- .
