#!/bin/bash
# mkseed.sh NAME PROP "needs" "breaks" : takes the working-tree diff of /repo and demo.cpp from stdin, then undoes the diff
D=/verif/seeded/$1; mkdir -p $D; R=${SEED_ROOT:+$SEED_ROOT/repo}; R=${R:-/repo}
git -C $R diff > $D/patch.diff; git -C $R checkout -- .
cat > $D/demo.cpp
cat > $D/demo.sh <<'S'
#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-O1 -w -DLINUX -D__USE_LONG_INTEGERS__ -D__USE_LONG_FINTS__ -D__NO_COPYRIGHT__ -DSOLVER_NONE -Iinclude"
R=$PWD; ls src/*.cpp | xargs -P8 -I{} sh -c "g++ $F -c {} -o $T/\$(basename {}).o" || exit 99
g++ $F "$H/demo.cpp" "$T"/*.o -o "$T/demo" || exit 99
cd "$T" && timeout 120 ./demo
S
python3 - "$1" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
python3 /verif/tools/seed.py $1
