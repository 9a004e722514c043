#!/bin/bash
# tools/seed.sh new ID PROP NEEDS BREAKS  - store /repo's current diff as a planted change (demo.py read from stdin), undo it
# tools/seed.sh test ID [notests]         - confirm a planted change and run its property's check against it
cmd="$1"; id="$2"; d=/verif/seeded/$id
case "$cmd" in
new)
  mkdir -p "$d"
  git -C /repo diff > "$d/patch.diff"
  git -C /repo checkout -- .
  cat > "$d/demo.py"
  cat > "$d/demo.sh" <<'X'
#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
export TZ=UTC PYTHONDONTWRITEBYTECODE=1
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here/demo.py" "$work/demo.py"
PYTHONPATH="$PWD" timeout 120 /opt/venv/bin/python -W ignore "$work/demo.py"
X
  chmod +x "$d/demo.sh"
  python3 - "$3" "$4" "$5" > "$d/meta.json" <<'X'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
X
  ;;
test)
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash "$d/demo.sh" > /tmp/seed_demo0.log 2>&1); r0=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
  (cd /repo && bash "$d/demo.sh" > /tmp/seed_demo1.log 2>&1); r1=$?
  t=skipped; [ "$3" = notests ] || t=$(bash /verif/tools/testcmp.sh)
  (cd /verif && ./check $prop --tier quick > /tmp/seed_check.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id prop=$prop demo: clean=$r0 patched=$r1 | tests: $t | check rc=$rc $(grep -o 'VIOLATION.*' /tmp/seed_check.log | head -1)"
  [ $r0 = 0 ] || tail -5 /tmp/seed_demo0.log
  [ $rc = 1 ] || tail -3 /tmp/seed_check.log
  ;;
esac
