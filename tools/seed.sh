#!/bin/bash
# developer helper: confirm a planted bug. Edit /tmp/sw (a copy of /repo), put demo.sh into /verif/seeded/<id>/, then run: seed.sh <id>
id=$1; d=/verif/seeded/$id; mkdir -p $d
cd /tmp/sw || exit 1
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/sw/target
git diff > /tmp/seed-$id.diff
if [ -s /tmp/seed-$id.diff ]; then cp /tmp/seed-$id.diff $d/patch.diff; fi
git checkout -q -- . ; git pull -q /repo HEAD 2>/dev/null || git pull -q /repo master
[ -n "$NOCLEAN" ] || { bash $d/demo.sh >/tmp/seed-$id.clean 2>&1; echo "clean demo rc=$? (want 0)"; }
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
cargo test --workspace --no-run --offline >/tmp/seed-$id.build 2>&1 || { grep -E "^error" -A5 /tmp/seed-$id.build; echo BUILD FAILED; exit 1; }
bash $d/demo.sh >/tmp/seed-$id.bad 2>&1; echo "patched demo rc=$? (want nonzero)"; tail -3 /tmp/seed-$id.bad
export TOMBI_CACHE_HOME=/tmp/sw-cache; mkdir -p $TOMBI_CACHE_HOME/https/www.schemastore.org/api/json; echo '{"schemas":[]}' > $TOMBI_CACHE_HOME/https/www.schemastore.org/api/json/catalog.json
cargo nextest run --workspace --offline --no-fail-fast > /tmp/seed-$id.test 2>&1
grep -E "^ +(FAIL|TIMEOUT|SIGABRT)" /tmp/seed-$id.test | sed 's/.*) *//; s/^ *//' | sort -u > /tmp/seed-$id.fails
python3 - $id <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
f=[l.strip() for l in open(f'/tmp/seed-{sys.argv[1]}.fails')]
def name(l): return ' '.join(l.split()[-2:]).replace(' ','::')
bad=[l for l in f if any(name(l).split('::',1)[-1] in x for x in b)]
print("failing tests:",len(f),"of them stable:",bad[:8])
P
git checkout -q -- .
