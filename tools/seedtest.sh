#!/bin/bash
# seedtest.sh ID...: confirm a planted bug: applies, builds, stable tests pass, demo fails with it and passes without
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  bash /opt/vp/build.sh >/dev/null 2>&1
  t=$(mktemp -d); cp $d/demo.sh $t/; for f in $d/*; do case $f in *.diff|*meta.json) ;; *) cp -r "$f" $t/;; esac; done
  timeout 300 bash $t/demo.sh >/tmp/seed.out 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$t"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  n=$(python3 -c "
import json;a=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']) if not isinstance(b['stable'],dict) else set(b['stable'])
print(len(st-set(a['passed'])))")
  timeout 300 bash $t/demo.sh >/tmp/seed.out2 2>&1; c=$?
  git checkout -q -- . ; rm -rf "$t"
  ok=OK; [ $a = 0 ] && [ $b = 0 ] && [ "$n" = 0 ] && [ $c != 0 ] || ok=BAD
  echo "$id: $ok clean-demo=$a build=$b broken-tests=$n bug-demo=$c"
done
bash /opt/vp/build.sh >/dev/null 2>&1
