#!/bin/bash
# mutns.sh FILE 'old=>new' CHECK...: like mut.sh, but on a copy of /repo bound over it in a private mount namespace.
# mutns.sh -p PATCH CHECK...: apply a patch instead.
W=$(mktemp -d /tmp/mutns.XXXXXX)
git -C /repo archive HEAD | tar -x -C $W
(cd $W && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x)
if [ "$1" = -p ]; then
  git -C $W apply "$2" || exit 9; shift 2
else
python3 - "$W/discs/$1" "$2" <<'P' || { echo "MUT FAILED $1 $2"; exit 9; }
import sys
f,p=sys.argv[1:]
a,b=p.split('=>',1)
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
s=open(f).read()
assert a in s, 'pattern not found'
open(f,'w').write(s.replace(a,b,1))
P
shift 2
fi
mkdir -p $W.ev
export W
for c in "$@"; do
unshare -Urm bash -c 'mount --bind $W /repo && mkdir -p /verif/replays && mount --bind $W.ev /verif/evidence && mount --bind $W.ev /verif/replays && timeout 880 bash /verif/check.sh '$c' ${TIER:-quick} > '$W.ev/out' 2>&1; echo "'$c' rc=$?"'
cut -c1-220 $W.ev/out | grep -E "^VIOLATION|NOT-EXPLORED|Error|undecided" | head -${LINES_OUT:-3}
done
rm -rf "$W" "$W.ev"
