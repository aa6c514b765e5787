#!/bin/bash
# mkseed.sh ID PROP ex|fa "needs" "what it breaks"   (dev helper: demo.rs is read from stdin; patch = current diff of /repo)
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no diff"; exit 1; }
if [ $3 = ex ]; then PKG=ref-exchange; DIR=ref-exchange; else PKG=ref_farming; DIR=ref-farming; fi
sed "s/@PKG@/$PKG/; s/@DIR@/$DIR/" /verif/seedkit/demo.sh > $D/demo.sh; chmod +x $D/demo.sh
cp /verif/harness/common/base.rs $D/base.rs
cp /verif/harness/$3/world.rs $D/world.rs
{ echo 'pub mod base { include!("base.rs"); }'; echo 'pub mod world { include!("world.rs"); }'; echo 'pub mod demo { include!("demo.rs"); }'
echo 'pub fn run() -> bool { match demo::demo() { Ok(()) => { println!("held"); true } Err(m) => { println!("BROKEN: {}", m); false } } }'; } > $D/top.rs
cat > $D/demo.rs
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
