#!/bin/bash
# plant.sh ID [PROPS|-] [BUDGET]: confirm a planted bug in a scratch copy of /repo, then run checks on it.
set -u
id=$1; dir=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
props=${2:-$prop}; budget=${3:-45s}
w=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/demo"; cp -r "$dir"/. "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
if [ -z "${FAST:-}" ]; then
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/d0.log" 2>&1) && echo "demo clean: ok" || { echo "demo FAILS on clean tree"; tail -20 "$w/d0.log"; }
fi
git -C "$w/repo" apply "$dir/patch.diff" || { echo "patch does not apply"; exit 1; }
(cd "$w/repo" && go build ./... ) || { echo "no build"; exit 1; }
if [ -z "${FAST:-}" ]; then
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/d1.log" 2>&1) && { echo "demo PASSES with the patch"; tail -20 "$w/d1.log"; } || { echo "demo patched: fails (good): $(grep -m1 -E 'Errorf|demo_|panic|FAIL' "$w/d1.log")"; }
(cd "$w/repo" && go test -json -count=1 ./... > "$w/t.json" 2>/dev/null)
python3 - "$w/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(); bad=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    t=e.get('Test')
    if not t: continue
    for n in (e['Package']+'/'+t, e['Package']+'.'+t, e['Package']+'::'+t, t):
        if e['Action']=='pass': ok.add(n)
        if e['Action']=='fail': bad.add(n)
m=[t for t in b if t not in ok]
print('stable tests missing:', m[:5], len(m), 'of', len(b))
P
fi
[ "$props" = - ] && exit 0
mkdir -p "$w/vv/evidence"; cp /verif/known_findings.json "$w/vv/"
R=; B=simcheck; case " $props " in *" C19 "*) R=race; B=simcheck-race;; esac; export GORACE=report_bugs=0
VERIF_REPO="$w/repo" /verif/bin/build.sh "$w/b" $R >"$w/bl.log" 2>&1 || { echo "sim build failed"; tail "$w/bl.log"; exit 1; }
for p in $props; do
  timeout 900 "$w/b/bin/$B" check -prop "$p" -budget "$budget" -verif "$w/vv" >"$w/c.log" 2>&1; rc=$?
  echo "check $p rc=$rc: $(grep -m1 VIOLATION "$w/c.log") | $(grep -v -m1 VIOLATION "$w/c.log" | cut -c1-220)"
  [ -n "${SHOW:-}" ] && tail -40 "$w/c.log"
done
