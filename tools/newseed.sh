#!/bin/bash
# tools/newseed.sh ID PROPERTY: makes seeded/ID from the uncommitted change in /repo and /tmp/demo.cpp, then undoes the change.
# env NEEDS, BREAKS describe it.
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
cp /tmp/demo.cpp $d/demo.cpp
cat > $d/demo.sh <<'S'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w $DEMO_FLAGS -I/repo/include -I/repo/mdflib/src "$d/demo.cpp" /repo/_build/mdflib/libmdf.a -lz -lexpat -lpthread -o "$t/demo" || exit 99
cd "$t" && timeout 120 ./demo
S
python3 - "$2" > $d/meta.json <<'P'
import json,os,sys
print(json.dumps({"property":sys.argv[1],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},indent=1))
P
[ -s $d/patch.diff ] || echo "EMPTY PATCH"
