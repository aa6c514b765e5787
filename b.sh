#!/bin/bash
# dev helper: extract+verify one unit:  b.sh unit [verus args]
U=$1; shift
mkdir -p /verif/.build/vc /verif/.build/out; cp /verif/contracts/*.vc /verif/.build/vc/
for f in prelude chain; do python3 /verif/contracts/gen_prelude.py /verif/contracts/$f.vc /verif/.build/vc/$f.vc; done; (cd /verif/extract; CARGO_TARGET_DIR=../.build/extract cargo build --offline -q 2>/dev/null)
cd /verif/.build/vc && ../extract/debug/extract ${REPO:-/repo} $U.vc ../out/$U.rs ../out/$U.json || exit 3
python3 -c "import json,sys; [print('LIMIT', f['fn'], f['limit']) for f in json.load(open('../out/$U.json')) if f['limit']]"
cd ../out && timeout 600 verus --triggers-mode silent $U.rs "$@"
