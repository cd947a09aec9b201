#!/bin/bash
# tools/fixcommit.sh PROP "commit subject" "what failed": builds and tests /repo's working tree, commits it as a fix and records it
set -e
bash /opt/vp/build.sh >/tmp/fc.log 2>&1
bash /opt/vp/test.sh /tmp/fc.json >/tmp/fc2.log 2>&1
tail -1 /tmp/fc2.log
python3 -c "
import json;d=json.load(open('/tmp/fc.json'));b=json.load(open('/opt/vp/BASELINE.json'))
assert len(d['passed'])>=48 and not d['failed'], d['failed']"
git -C /repo commit -qam "fix: $2"
python3 /verif/tools/add_fixed.py $1 $(git -C /repo rev-parse --short HEAD) "$3"
git -C /repo log --oneline | head -1
