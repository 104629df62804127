#!/bin/bash
# mkseed.sh ID PROPERTY MAIN.rs "needs" "what it breaks": /repo holds the planted change; saves, validates and undoes it
id=$1; prop=$2; main=$3
d=/verif/seeded/$id
mkdir -p "$d/src"
git -C /repo diff > "$d/patch.diff"
T=${DEMO_DIR:-/verif/tools/demo}
cp "$T/demo.sh" "$T/Cargo.toml" "$T/Cargo.lock" "$d/"
cp "$T"/src/bank.rs "$T"/src/world.rs "$d/src/"
cp "$main" "$d/src/main.rs"
python3 - "$d/meta.json" "$prop" "$4" "$5" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
P
exec bash /verif/tools/valseed.sh "$id"
