#!/bin/bash
# usage: seed_try.sh ID [notest] [nocheck]: what does the planted bug do, and is it caught?
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "dirty /repo"; exit 2; }
tmp=$(mktemp -d /tmp/seedtry.XXXXXX); cp $d/* $tmp/; rm -f $tmp/patch.diff $tmp/meta.json
bash $tmp/demo.sh >$tmp/clean.out 2>&1; echo "$id demo clean rc=$? (want 0)"
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; rm -rf "$tmp"' EXIT
bash $tmp/demo.sh >$tmp/bad.out 2>&1; echo "$id demo patched rc=$? (want !0)"; tail -3 $tmp/bad.out
case " $* " in *" notest "*) ;; *)
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
  bash /opt/vp/test.sh $tmp/t.json >/dev/null 2>&1
  python3 - $tmp/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open(sys.argv[1]))['passed'])
print('tests missing:', [t for t in b if t not in p])
P
esac
case " $* " in *" nocheck "*) ;; *)
  (cd /verif && ./check $prop quick) 2>&1 | tail -6 | cut -c1-400; echo "check rc=${PIPESTATUS[0]}"
esac
