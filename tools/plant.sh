#!/bin/bash
# plant.sh ID PROPERTY NEEDS BREAKS : /repo carries the change, seeded/ID/demo.c is the demonstration.
# Records the change, confirms it and runs the property's check against it, then undoes it.
id=$1; prop=$2; needs=$3; breaks=$4
d=/verif/seeded/$id
test -f $d/demo.c || { echo no demo; exit 2; }
if [ -n "$needs" ]; then
git -C /repo diff > $d/patch.diff
test -s $d/patch.diff || { echo empty patch; exit 2; }
python3 - "$d" "$prop" "$needs" "$breaks" <<'PY'
import json, sys
d, p, n, b = sys.argv[1:]
json.dump({"property": p, "needs": n, "what_it_breaks": b}, open(d + "/meta.json", "w"), indent=2)
PY
if [ ! -f $d/demo.sh ]; then
sed "s/@ID@/$id/g" > $d/demo.sh <<'SH'
#!/bin/bash
# Run in the root of the source tree. Exit 0 if the library behaves
here=$(cd "$(dirname "$0")" && pwd)
out=/tmp/vdemo-@ID@
rm -rf /tmp/vdemo-@ID@
mkdir -p "$out"
trap 'rm -rf /tmp/vdemo-@ID@' EXIT
PKG="glib-2.0 gobject-2.0"
gcc -g -O1 -w -fsanitize=address ${DEMO_FLAGS} -Iinclude -Isrc $(pkg-config --cflags $PKG) "$here/demo.c" src/*.c \
    -o "$out/demo" $(pkg-config --libs $PKG) -lpthread -ldl || exit 3
cd "$out" && timeout 120 ./demo
SH
fi
chmod +x $d/demo.sh
fi
cd /repo
git checkout -q -- .
(bash $d/demo.sh) >/tmp/w/tmp/$id.demo0 2>&1; r0=$?
git apply $d/patch.diff || { echo NO APPLY; exit 2; }
bash /opt/vp/build.sh >/tmp/w/tmp/$id.build 2>&1 || { echo BUILD FAILS; tail -5 /tmp/w/tmp/$id.build; }
grep -n warning /tmp/w/tmp/$id.build | head -3
bash /opt/vp/test.sh /tmp/w/tmp/$id.json >/tmp/w/tmp/$id.test 2>&1
python3 - $id <<'PY'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open("/tmp/w/tmp/%s.json" % sys.argv[1]))
base = b["stable"]
print("TESTS failing:", sorted(set(base) - set(r["passed"]))[:5])
PY
(bash $d/demo.sh) >/tmp/w/tmp/$id.demo1 2>&1; r1=$?
s=$(date +%s)
(cd /verif; timeout 850 python3 run.py $prop > /tmp/w/tmp/$id.check 2>&1); rc=$?
e=$(date +%s)
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id [$prop]: demo clean=$r0 patched=$r1 check rc=$rc ($((e-s)) s) $(grep -m1 VIOLATION /tmp/w/tmp/$id.check)"
git status --short | head -3
