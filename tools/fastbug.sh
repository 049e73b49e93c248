#!/bin/bash
# tools/fastbug.sh ID [--nocheck]: demo on a patched copy of /repo, then the property's quick check with that copy in place of /repo (no build, no tests)
ID="$1"; S=$(mktemp -d /tmp/fb.XXXXXX); trap '/bin/rm -rf "$S"' EXIT
git clone -q --shared /repo $S/repo; cp -a /verif/seeded/$ID $S/demo; rm -f $S/demo/patch.diff; mkdir "$S/verif"; (cd /verif && tar cf - --exclude=./out --exclude=./.git --exclude=./seeded . ) | tar xf - -C "$S/verif"
PROP=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
(cd $S/repo && bash $S/demo/demo.sh >$S/d0.log 2>&1); d0=$?
git -C $S/repo apply /verif/seeded/$ID/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
(cd $S/repo && bash $S/demo/demo.sh >$S/d1.log 2>&1); d1=$?
r=-; [ "$2" = --nocheck ] || { unshare -Urm bash -c "mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /verif; timeout 900 bash checks/run.sh $PROP quick" >$S/c.log 2>&1; r=$?; }
echo "$ID $PROP demo0=$d0 demo1=$d1 check=$r $(tail -1 $S/d1.log | cut -c1-120) :: $(grep -A1 "VIOLATION property=$PROP" $S/c.log 2>/dev/null | sed -n 2p | cut -c1-120)"
[ $d0 = 0 ] || tail -3 $S/d0.log
