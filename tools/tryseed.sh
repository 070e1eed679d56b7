#!/bin/bash
# tryseed.sh ID...: applies a planted bug to /repo, builds, runs its demonstration and its property's check, undoes it
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo || exit 1
  [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 1; }
  [ "$NOBASE" ] || { bash $D/demo.sh > /tmp/ts.$id.base 2>&1; base=$?; }
  git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/ts.$id.build 2>&1 || echo "$id: BUILD FAILS"
  bash $D/demo.sh > /tmp/ts.$id.demo 2>&1; d=$?
  (cd /verif && python3 check.py $P > /tmp/ts.$id.check 2>&1); c=$?
  t=; if [ "$TESTS" ]; then bash /opt/vp/test.sh /tmp/ts.$id.json > /dev/null 2>&1; t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/ts.$id.json'));print('tests missing:',sorted(b-set(t['passed']))[:5])"); fi
  git apply -R $D/patch.diff || git checkout -- .
  echo "$id ($P): demo base=$base patched=$d check=$c $(grep -c '^VIOLATION' /tmp/ts.$id.check) $t"
done
cd /repo && bash /opt/vp/build.sh > /dev/null 2>&1
