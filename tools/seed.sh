#!/bin/bash
# seed.sh edit ID            make /tmp/sd/ID, a copy of /repo to edit (with the seed's patch applied, if it has one)
# seed.sh save ID            write seeded/ID/patch.diff from it
# seed.sh test ID [CHECK..]  in a private mount namespace: build, stable tests, demo with and without the patch, then the checks
V=/verif; S=/tmp/sd; ID=$2
case $1 in
edit) mkdir -p $S; rm -rf "$S/$ID"; cp -a /repo "$S/$ID"; mkdir -p $V/seeded/$ID; [ -s $V/seeded/$ID/patch.diff ] && git -C $S/$ID apply $V/seeded/$ID/patch.diff; true ;;
save) mkdir -p $V/seeded/$ID; git -C $S/$ID diff -- sonolus > $V/seeded/$ID/patch.diff; wc -l $V/seeded/$ID/patch.diff ;;
test) shift 2
  mkdir -p $S; rm -rf "$S/$ID.t"; cp -a /repo "$S/$ID.t"; cp -a /opt/vp "$S/$ID.vp"
  cp -a $V/seeded/$ID "$S/$ID.d"; rm -f $S/$ID.d/*.diff $S/$ID.d/meta.json
  export ID S V
  unshare -Urm bash -c '
    mount --bind $S/$ID.t /repo; mount --bind $S/$ID.vp /opt/vp; cd /repo
    bash $S/$ID.d/demo.sh > $S/$ID.clean.log 2>&1; echo "demo clean exit $?"
    git apply $V/seeded/$ID/patch.diff || { echo "does not apply"; exit 3; }
    bash /opt/vp/build.sh > $S/$ID.build.log 2>&1 || { echo "does not build"; tail -5 $S/$ID.build.log; exit 3; }
    bash $S/$ID.d/demo.sh > $S/$ID.bug.log 2>&1; echo "demo patched exit $?"; tail -2 $S/$ID.bug.log
    bash /opt/vp/test.sh $S/$ID.res.json > $S/$ID.test.log 2>&1
    python3 - $S/$ID.res.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]))
def names(x): return set(x) if isinstance(x,list) else {k for k,v in x.items()}
bs=b.get("stable") or b.get("passed") or b.get("tests"); rs=r.get("passed")
m=names(bs)-names(rs); print("stable tests broken:", len(m), sorted(m)[:3])
P
    for c in "$@"; do
      timeout 850 /opt/venv/bin/python $V/checks/run.py $c > $S/$ID.$c.log 2>&1; rc=$?
      echo "$c exit=$rc $(grep -c ^VIOLATION $S/$ID.$c.log) $(grep -m1 "^--- " -A1 $S/$ID.$c.log | tr "\n" " " | cut -c1-300)"
    done' bash "$@"
  rm -rf "$S/$ID.t" "$S/$ID.d" "$S/$ID.vp" ;;
esac
