#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS : takes the uncommitted change in the scratch copy /tmp/sr as patch of seeded bug ID
set -e
D=/verif/seeded/$1
mkdir -p "$D"
git -C /tmp/sr diff > "$D/patch.diff"
python3 - "$D/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
if [ -f "$D/demo.rs" ] && [ ! -f "$D/demo.sh" ]; then cat > "$D/demo.sh" <<'S'
#!/bin/bash
# compiles demo.rs against the built library and runs it in a scratch folder
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d) || exit 9
trap 'rm -rf "$o"' EXIT
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin HOME=/root RUSTUP_TOOLCHAIN=stable
rustc --edition 2021 -A warnings -L dependency=target/debug/deps --extern poppy_filters=target/debug/libpoppy_filters.rlib "$d/demo.rs" -o "$o/demo" || exit 8
cd "$o" && ./demo
S
fi
git -C /tmp/sr checkout -q -- .
cat "$D/patch.diff" | head -30
