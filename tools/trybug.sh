#!/bin/bash
# tools/trybug.sh ID [extra property ids...] : validates /verif/seeded/ID in a private mount namespace holding copies of
# /repo and /verif; prints one summary line.  Never touches /repo or /verif themselves.  --nocheck: only validity.
ID="$1"; shift
NOCHECK=0; [ "${1:-}" = --nocheck ] && { NOCHECK=1; shift; }
S=$(mktemp -d /tmp/sb.XXXXXX); trap '/bin/rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; mkdir "$S/verif"; (cd /verif && tar cf - --exclude=./out --exclude=./.git . ) | tar xf - -C "$S/verif"
cp -a /verif/seeded/$ID "$S/demo"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
PROP=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cat > "$S/go.sh" <<X
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo; git checkout -q -- . 

timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1; d0=\$?
git apply /verif/seeded/$ID/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$S/b1.log 2>&1 || { echo "$ID DOES NOT BUILD"; tail -5 $S/b1.log; exit 1; }
bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1
t=\$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$S/t.json'))
s=b.get('stable') or b.get('passed') or b
print('ok' if set(s)<=set(t['passed']) else 'FAILS:'+','.join(sorted(set(s)-set(t['passed']))))")
timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1; d1=\$?
res=""
if [ $NOCHECK = 0 ]; then for p in $PROP $*; do timeout 900 bash /verif/checks/run.sh \$p quick >$S/c.\$p.log 2>&1; r=\$?; res="\$res \$p:exit=\$r"; grep -A2 "VIOLATION property=\$p" $S/c.\$p.log | head -3 | cut -c1-300 >>$S/v.log; done; fi
echo "$ID demo0=\$d0 demo1=\$d1 tests=\$t checks:\$res"
[ \$d0 = 0 ] || tail -5 $S/d0.log; tail -2 $S/d1.log | cut -c1-300; cat $S/v.log 2>/dev/null
X
unshare -Urm bash "$S/go.sh"
