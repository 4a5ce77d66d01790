#!/bin/bash
# tools/seedtest.sh ID...: applies each planted bug to /repo, builds, runs the repository's tests, and undoes it.
for ID in "$@"; do
  git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; continue; }
  timeout 600 bash /opt/vp/build.sh >/tmp/seedtest.b 2>&1; B=$?
  for k in 1 2; do timeout 300 bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.t 2>&1; T=$?
    echo "$ID: build=$B test=$T $(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seedtest.json'))
print('broken:', sorted(b-set(t['passed']))[:4])")"; done
  git -C /repo checkout -- .
done
