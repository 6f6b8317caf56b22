#!/bin/bash
# mkbug.sh ID PROPERTY SCRATCH DEMO.cc "needs" "what it breaks": turns the edits in
# the scratch copy SCRATCH of /repo into seeded/ID (developer tool, not a check)
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C $3 diff HEAD > $D/patch.diff; test -s $D/patch.diff
cp $4 $D/demo.cc; [ -d $D/shim ] || cp -r /verif/shim $D/shim
cat > $D/demo.sh <<'X'
#!/bin/bash
# Compiles the working tree's sources with demo.cc; exit 0 = behaviour as promised.
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
S=$(find ink_stroke_modeler -name '*.cc' | grep -v _test.cc | grep -v type_matchers | grep -v fuzz)
i=0
for s in $S "$H/demo.cc"; do i=$((i+1)); g++ -std=c++20 -O1 -w -I"$H/shim" -I"$PWD" -c "$s" -o "$W/$i.o" & done
for j in $(jobs -p); do wait $j || exit 2; done
g++ "$W"/*.o -o "$W/demo" || exit 2
timeout 60 "$W/demo"
X
chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[5],"what_it_breaks":sys.argv[6]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
git -C $3 checkout -q -- .
