#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks"  (edit made in /tmp/seed.$ID worktree; demo.py in /tmp/seed.$ID.demo.py)
# verifies and stores /verif/seeded/ID
set -e
ID=$1; W=/tmp/seed.$ID; OUT=/verif/seeded/$ID
mkdir -p $OUT
git -C $W diff > $OUT/patch.diff
[ -s $OUT/patch.diff ] || { echo "empty diff"; exit 1; }
cp /tmp/seed.$ID.demo.py $OUT/demo.py
grep -q demolib $OUT/demo.py && cp /verif/tools/demolib.py $OUT/demolib.py
cat > $OUT/demo.sh <<'D'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3
PYTHONPATH="$PWD:$here" exec /opt/venv/bin/python "$here/demo.py"
D
chmod +x $OUT/demo.sh
python3 - "$2" "$3" "$4" > $OUT/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
echo "unchanged:"; (cd /repo && timeout 300 bash $OUT/demo.sh 2>&1 | grep -v "cuda\|oneDNN\|absl" | tail -2; exit ${PIPESTATUS[0]}) && echo rc 0 || echo "rc FAIL"
echo "patched:"; (cd $W && timeout 300 bash $OUT/demo.sh 2>&1| grep -v "cuda\|oneDNN\|absl" | tail -2; exit ${PIPESTATUS[0]}) && echo "rc 0 BAD" || echo "rc nonzero"
