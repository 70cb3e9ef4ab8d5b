#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks"  : takes the diff now in /repo, demo.cpp from /tmp/x/demo_ID.cpp; verifies; stores
id=$1 prop=$2 needs=$3 breaks=$4; dir=/verif/seeded/$id
cd /repo; mkdir -p $dir
git diff > $dir/patch.diff
[ -s $dir/patch.diff ] || { echo "no diff"; exit 1; }
cp /tmp/x/demo_$id.cpp $dir/demo.cpp
cat > $dir/demo.sh <<'D'
#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -g -w -DSYS_POSIX -Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype EXTRA -I"$PWD/include" -I"$PWD/_build/include" \
    "$d/demo.cpp" -o "$t/demo" -L"$PWD/_build/src" -lLintelPThread -lLintel -lboost_thread -lboost_system -lpthread -lxml2 \
    -Wl,-rpath,"$PWD/_build/src" || exit 1
cd "$t" && timeout 120 ./demo
D
sed -i "s| EXTRA | ${EXTRA} |" $dir/demo.sh; chmod +x $dir/demo.sh
python3 - "$dir" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
bash /opt/vp/test.sh /tmp/x/out.json > /tmp/x/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))["stable"]); o=json.load(open('/tmp/x/out.json'))
m=b-set(o["passed"]); print("tests missing:", m or "none")
P
bash $dir/demo.sh; echo "demo with patch: $? (want nonzero)"
(cd /verif; timeout 900 python3 check.py $prop | tail -4; echo "check rc ${PIPESTATUS[0]}")
git checkout -- . ; bash /opt/vp/build.sh > /dev/null 2>&1
bash $dir/demo.sh; echo "demo without patch: $? (want 0)"
git status --short
