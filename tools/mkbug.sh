#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "breaks" : takes the current diff of /repo (src) as the patch, checks demo.sh fails with it and passes without, runs the property's check
set -u
id=$1; prop=$2; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff -- src > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 2; }
python3 - "$d" "$prop" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'P'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'find "$t" -delete' EXIT
g++ -std=c++20 -O1 -w -D_GLIBCXX_ASSERTIONS -pthread -I/repo/src "$d/demo.cpp" /repo/_build/libgapp.a -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
P
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/w/build.log; }
bash $d/demo.sh >/tmp/w/demo.log 2>&1; echo "demo with bug: rc=$? $(tail -1 /tmp/w/demo.log | cut -c1-200)"
bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/t.json'))
bl=b if isinstance(b,list) else b.get('stable') or b.get('passed') or list(b.values())[0]
print('missing tests:', [x for x in bl if x not in set(t['passed'])][:5])"
(cd /verif; python3 engine/check.py $prop quick 2>&1 | grep -v "proved  " | tail -${LINES_OUT:-6} | cut -c1-300)
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1
bash $d/demo.sh >/tmp/w/demo.log 2>&1; echo "demo without bug: rc=$?"
