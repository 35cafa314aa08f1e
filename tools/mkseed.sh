#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks": takes the current uncommitted change of /repo as the patch, demo.cpp from stdin
id=$1; d=/verif/seeded/$id; mkdir -p $d; cd /repo
git diff > $d/patch.diff; git checkout -q -- .
[ -s $d/patch.diff ] || { echo "$id: no change"; exit 1; }
cat > $d/demo.cpp
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 99
trap '/bin/rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -DSSL_ENABLED -DUSE_SSL -Iinclude "$here/demo.cpp" _build/lib/libfrnetlib.a -lmbedtls -lmbedx509 -lmbedcrypto -lpthread -o "$t/demo" || exit 99
cd "$t" && timeout 60 ./demo
X
python3 - "$@" <<'X'
import sys,json
id,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f'/verif/seeded/{id}/meta.json','w'),indent=1)
X
