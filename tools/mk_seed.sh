#!/bin/bash
# mk_seed.sh ID PROPERTY "needs" "breaks" : makes seeded/ID from the diff of the worktree /tmp/sd against /repo HEAD
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/sd diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty diff"; exit 1; }
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
cat > $d/demo.py
cat > $d/demo.sh <<'S'
#!/bin/bash
cd "${PWD}"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
S
chmod +x $d/demo.sh
(cd /tmp/sd && bash $d/demo.sh >/tmp/demo.out 2>&1) && { echo "DEMO PASSES WITH PATCH"; } || echo "demo fails with patch: $(tail -1 /tmp/demo.out)"
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1) && echo "demo ok on repo" || { echo "DEMO FAILS ON REPO"; tail -3 /tmp/demo.out; }
P=$(python3 - "$2" <<'P'
import sys; print(sys.argv[1])
P
)
[ -f /verif/checks/${P,,}.py ] && (cd /verif && VF_REPO=/tmp/sd timeout 900 python3-vt check.py $P | head -4 | cut -c1-250)
git -C /tmp/sd checkout -q -- .
