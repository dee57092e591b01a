#!/bin/bash
# usage: seed.sh <id> <property> - takes /repo's current uncommitted diff (or the existing patch) as planted bug <id>, confirms it and runs the check
# seeded/<id>/ must contain demo.cpp (demo.sh is generated when missing) and meta.json
set -u
ID=$1 P=$2
D=/verif/seeded/$ID
mkdir -p $D
if ! git -C /repo diff --quiet; then git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .; fi
if [ ! -e $D/demo.sh ]; then cat > $D/demo.sh <<'E2'
#!/bin/bash
# builds and runs the demonstration against the library in /repo/_build; effects are confined to a scratch directory
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -O1 -w -DTAG_PARSER_STATIC -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -I/repo -I/repo/_build/shim -isystem /usr/include/martchus-c++utilities \
    -o "$tmp/demo" "$here/demo.cpp" /repo/_build/libtagparser.a -lmartchus-c++utilities -lz
cd "$tmp"
timeout 120 ./demo "$tmp"
E2
chmod +x $D/demo.sh; fi
trap 'git -C /repo checkout -q -- .' EXIT
run() { mkdir -p /tmp/demoplace; rm -rf /tmp/demoplace/x; cp -r $D /tmp/demoplace/x; rm -f /tmp/demoplace/x/patch.diff /tmp/demoplace/x/meta.json; (cd /repo && bash /tmp/demoplace/x/demo.sh); }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { tail -5 /tmp/seed.build; echo BASE BUILD FAILED; exit 1; }
run; echo "unpatched demo: $? (want 0)"
git -C /repo apply $D/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.build 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/seed.json'))
s=b.get('stable',b.get('passed',b)) ; s=s if isinstance(s,list) else list(s)
print('stable tests:', 'OK' if set(s)<=set(r['passed']) else 'BROKEN '+str(set(s)-set(r['passed'])))"
run; echo "patched demo: $? (want nonzero)"
(cd /verif && python3 vt/run.py $P --tier quick | grep -v "^#" | cut -c1-300 | tail -4; echo "check: ${PIPESTATUS[0]} (want 1)")
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
