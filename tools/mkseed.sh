#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" < main.go : turns the edits made in the scratch tree
# /tmp/sd/repo (a copy of /repo) into seeded/ID, and confirms it: builds, tests pass, demo passes
# without and fails with the patch. main.go prints nothing and exits 0 when the behaviour is right.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
ID="$1"; D="$V/seeded/$ID"; mkdir -p "$D"; OK=
trap '[ -n "$OK" ] || rm -rf "$D"' EXIT
cat > "$D/main.go"
git -C /tmp/sd/repo diff > "$D/patch.diff"
test -s "$D/patch.diff"
cp "$V/gomod/freetype.mod" "$D/demo.mod"; cp "$V/gomod/freetype.sum" "$D/demo.sum"
mv "$D/main.go" "$D/main.go.txt"
cat > "$D/demo.sh" <<'S'
#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$(pwd)"
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= CGO_ENABLED=0
cp "$D/demo.mod" "$T/demo.mod"; cp "$D/demo.sum" "$T/demo.sum"; cp "$D/main.go.txt" "$T/main.go"
echo "{\"Replace\":{\"$R/go.mod\":\"$T/demo.mod\",\"$R/verifdemo/main.go\":\"$T/main.go\"}}" > "$T/o.json"
go build -modfile="$T/demo.mod" -overlay="$T/o.json" -buildvcs=false -o "$T/demo" ./verifdemo || exit 2
timeout 120 "$T/demo"
S
chmod +x "$D/demo.sh"
python3 - "$D" "$2" "$3" "$4" <<'P'
import json, sys
d, p, n, w = sys.argv[1:]
json.dump({"property": p, "needs": n, "what_it_breaks": w}, open(d + "/meta.json", "w"), indent=1)
P
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd /repo
python3 - "$D/patch.diff" <<'P'
import re, subprocess, sys
f, n, orig = None, 0, 0
for l in open(sys.argv[1]):
    if l.startswith("--- a/"):
        f = l[6:].strip()
        b = subprocess.run(["git", "blame", "-s", f], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()
    elif l.startswith("@@"):
        n = int(re.match(r"@@ -(\d+)", l).group(1))
    elif l.startswith("-") and not l.startswith("---"):
        orig += b[n - 1].startswith("^66e7632")
        n += 1
    elif l.startswith(" "):
        n += 1
print("original lines changed:", orig)
if not orig:
    raise SystemExit("no original line is changed")
P
test -z "$(git status --porcelain)"
bash "$D/demo.sh" >/tmp/sd/clean.log 2>&1 || { echo "demo fails on the clean tree"; cat /tmp/sd/clean.log; exit 1; }
git apply "$D/patch.diff"
trap 'git -C /repo checkout -q -- .; [ -n "$OK" ] || rm -rf "$D"' EXIT
bash /opt/vp/build.sh
bash /opt/vp/test.sh /tmp/sd/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/sd/t.json"))
def passed(d):
    for k in ("passed", "pass", "stable"):
        if k in d: return set(map(str, d[k]))
    raise SystemExit(str(list(d)))
m = passed(b) - passed(t)
if m: raise SystemExit("tests fail: %s" % m)
P
if bash "$D/demo.sh" >/tmp/sd/bug.log 2>&1; then echo "demo passes with the patch"; exit 1; fi
OK=1; echo "seed $ID confirmed: $(tail -n 1 /tmp/sd/bug.log)"
git -C /tmp/sd/repo checkout -q -- .
git -C /tmp/sd/repo pull -q 2>/dev/null || true
if [ -z "$NOCHECK" ]; then (cd "$V"; timeout 900 python3 check.py "$2" | tail -n 2 | cut -c1-300) || true; fi
