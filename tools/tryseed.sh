#!/bin/bash
# tryseed.sh ID [CHECK_CMD...]: builds, tests, demonstrates and checks one planted bug in /repo, then undoes it.
root="$(cd "$(dirname "$0")/.." && pwd)"; d="$root/seeded/$1"
p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cmd=$(python3 -c "
import json
for c in json.load(open('$root/MANIFEST.json'))['checks']:
  if c['property']=='$p': print(c['quick_cmd'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
if [ -z "$NOBASE" ]; then (cd /repo && bash "$d/demo.sh" > /tmp/demo.log 2>&1); echo "demo on the unchanged tree: $? (want 0)"; fi
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOBUILD" ]; then
bash /opt/vp/build.sh > /tmp/sb.log 2>&1; echo "build: $? (want 0)"
bash /opt/vp/test.sh /tmp/st.json > /dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/st.json'));print('tests passed',len(d['passed']),'failed',len(d['failed']),'(want 21, 0)')"
fi
(cd /repo && bash "$d/demo.sh" > /tmp/demo.log 2>&1); echo "demo on the changed tree: $? (want nonzero)"; tail -3 /tmp/demo.log
if [ -n "$cmd" ]; then (cd "$root" && $cmd); echo "check $p: $? (want 1)"; fi
