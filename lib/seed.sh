#!/bin/bash
# seed.sh ID [PROP...]: development aid - tries /verif/seeded/ID in a scratch copy: build, tests, demo, checks
id=$1; shift
W=/tmp/seedwork; S=/verif/seeded/$id
if [ ! -d $W/repo ]; then mkdir -p $W; cp -a /repo $W/repo; fi
cd $W/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
sed "s,^repo=/repo,repo=$W/repo,; s,/repo/_build,$W/repo/_build,g" /opt/vp/build.sh > $W/build.sh
sed "s,^tree=/repo,tree=$W/repo,; s,^rep=/repo,rep=$W/repo,; s,/opt/vp/build.sh,$W/build.sh,g" /opt/vp/test.sh > $W/test.sh
D=/tmp/seedwork/demo; rm -rf /tmp/seedwork/demo; mkdir -p $D; cp -a $S/. $D; rm -f $D/*.diff $D/meta.json
bash $W/build.sh >$W/log 2>&1 || { echo "BASE BUILD FAILED"; tail -5 $W/log; exit 3; }
timeout 300 bash $D/demo.sh >$W/demo0 2>&1; d0=$?
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 3; }
bash $W/build.sh >$W/log 2>&1 || { echo "BUILD FAILED"; grep -m5 error $W/log; git checkout -q -- .; exit 3; }
bash $W/test.sh $W/out.json >$W/log 2>&1; t=$(grep -c '"failed": \[\]' $W/out.json); np=$(tail -1 $W/log)
timeout 300 bash $D/demo.sh >$W/demo1 2>&1; d1=$?
echo "SEED $id: demo base=$d0 patched=$d1 tests-ok=$t ($np)"
[ $d0 = 0 ] || tail -5 $W/demo0
[ $d1 != 0 ] || tail -5 $W/demo1
for p in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  (cd /verif; VERIF_REPO=$W/repo timeout 900 python3-vt checks/run.py $p --tier quick > $W/chk 2>&1; echo "  $p rc=$? $(grep -m1 -A1 VIOLATION $W/chk | tr '\n' ' ' | cut -c1-400)"; tail -2 $W/chk | cut -c1-300)
done
cd $W/repo && git checkout -q -- .
