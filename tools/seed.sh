#!/bin/bash
# tools/seed.sh ID...: confirms planted bugs: demo passes without and fails with the change, the stable tests pass, and what the check says
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  s=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id: clean build failed"; exit 1; }
  bash $s/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seed.test >/tmp/seed.testlog 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.test'))
st=b.get('stable',b.get('passed'))
print(len([x for x in st if x not in o['passed']]),"stable tests fail of",len(st))
P
)
  bash $s/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
  (cd /verif && timeout 900 bin/check $p > /tmp/seed.check 2>&1); c=$?
  v=$(grep -m1 "^VIOLATION property=$p " /tmp/seed.check)
  git checkout -q -- .
  echo "$id ($p): demo clean=$d0 patched=$d1; $t; check exit=$c ${v:+CAUGHT}"
  [ $c = 1 ] && grep -m1 -A2 "  property $p" /tmp/seed.check | cut -c1-300
  python3 - "$id" "$c" <<'P'
import sys, re
f = "/verif/tools/seed_results.tsv"; r = dict(l.split("\t", 1) for l in open(f).read().splitlines() if "\t" in l)
m = re.search(r"^  property C\d+: (.*)$", open("/tmp/seed.check").read(), re.M); old = r.get(sys.argv[1], "")
r[sys.argv[1]] = ("caught: " + m.group(1)[:110] if sys.argv[2] == "1" and m else "missed") + (" (after strengthening)" if "strengthening" in old or old == "missed" else "")
open(f, "w").write("".join(f"{k}\t{v}\n" for k, v in sorted(r.items())))
P
  [ $c = 2 ] && tail -3 /tmp/seed.check
done
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
