#!/bin/bash
# tools/seed.sh ID [check...]: validates a planted bug in a scratch worktree: demo passes without and fails with the patch;
# then runs the named checks (default: the property in meta.json) against the patched worktree.
ID=$1; shift
S=/verif/seeded/$ID; [ -d $S ] || S=/verif/seeded_more/$ID; W=/tmp/seedwt.$ID
git -C /repo worktree remove --force "$W" >/dev/null 2>&1; git -C /repo worktree prune
git -C /repo worktree add -q --detach "$W" HEAD || exit 3
D=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -r "$S"/. "$D"; rm -f "$D"/patch.diff "$D"/meta.json
(cd "$W"; timeout 300 bash "$D"/demo.sh >/tmp/seed.$ID.clean 2>&1); C=$?
git -C "$W" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 3; }
(cd "$W"; timeout 300 bash "$D"/demo.sh >/tmp/seed.$ID.patched 2>&1); P=$?
echo "$ID: demo clean=$C patched=$P"
for k in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  VERIF_REPO=$W timeout 900 python3 /verif/checks/$k.py --tier quick >/tmp/seed.$ID.$k.log 2>&1; echo "$ID: check $k exit=$? $(grep -c '^VIOLATION' /tmp/seed.$ID.$k.log) violation lines"
done
git -C /repo worktree remove --force "$W"; rm -r "$D"
