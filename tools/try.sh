# try.sh ID [check ids]: demo on clean, patch on, build, test, demo, checks, revert
id=$1; shift; d=/verif/seeded/$id
cd /repo; git diff --quiet || { echo DIRTY; exit 1; }
bash $d/demo.sh > /tmp/sd/$id.clean 2>&1; echo "$id clean demo rc $?"
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/sd/$id.build 2>&1; echo "build rc $?"
bash /opt/vp/test.sh /tmp/sd/$id.json >/dev/null 2>&1; echo "test rc $?"
bash $d/demo.sh > /tmp/sd/$id.bad 2>&1; echo "bad demo rc $?"; tail -3 /tmp/sd/$id.bad
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${@:-$P}; do timeout 900 python3 /verif/check.py $c > /tmp/sd/$id.$c 2>&1; echo "check $c rc $?"; tail -2 /tmp/sd/$id.$c | cut -c1-300; done
git -C /repo checkout -- .
