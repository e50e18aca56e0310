#!/bin/bash
# seed_check.sh ID...: validates planted bugs in place (apply, build, test, demo, check) and undoes them
# versioneer cannot parse vcheck's tag: hide it from 'git describe' while building here
sh=$(mktemp -d); printf '#!/bin/bash\nfor a in "$@"; do [ "$a" = describe ] && exec /usr/bin/git "$@" --exclude "vcheck*"; done\nexec /usr/bin/git "$@"\n' > $sh/git
chmod +x $sh/git; export PATH=$sh:$PATH
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=$(mktemp -d); cp -r $s/. $t/; rm -f $t/*.diff $t/meta.json
  (cd /repo && timeout 300 bash $t/demo.sh >/tmp/sc_clean.log 2>&1); clean=$?
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sc_build.log 2>&1; b=$?
  ts=skipped
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/sc_test.json >/tmp/sc_test.log 2>&1
  ts=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sc_test.json'))
def names(x,k):
    v=x.get(k,[]); return set(v if isinstance(v,list) else v.keys())
stable=set(b.get('stable') or b.get('passed') or b.get('pass') or b.get('tests') or [])
ok=set(r.get('passed') or r.get('pass') or [])
m=sorted(stable-ok); print('tests-ok' if stable and not m else 'TESTS-FAIL %d %s'%(len(m),m[:3]))
P
); fi
  (cd /repo && timeout 300 bash $t/demo.sh >/tmp/sc_bug.log 2>&1); bug=$?
  chk=$(VERIF_SEED=1 python3 /verif/check.py $prop --tier quick 2>&1 | tail -2 | tr '\n' ' ' | cut -c1-300)
  git checkout -q -- .
  echo "$id prop=$prop demo-clean=$clean build=$b $ts demo-bug=$bug :: $chk"
  rm -rf "$t"
done
bash /opt/vp/build.sh >/dev/null 2>&1
git status --porcelain
