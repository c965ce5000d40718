#!/bin/bash
# Builds a small program against the didcomm crate in the current directory (with stand-ins for the
# crates that are not available offline) and runs it: 0 when the property holds, 1 when it does not.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$W/t"
mkdir -p "$W/h/src" "$W/h/.cargo" "$W/models/askar-crypto/src"
cp "$D/askar.rs" "$W/models/askar-crypto/src/lib.rs"
cp "$D/askar.toml" "$W/models/askar-crypto/Cargo.toml"
echo '{"files":{},"package":null}' > "$W/models/askar-crypto/.cargo-checksum.json"
cp "$D"/main.rs "$D"/fix.rs "$D"/craft.rs "$W/h/src/"
cp "$D/lock" "$W/h/Cargo.lock"
if [ -d "$D/standins" ]; then
  cp -r "$D/standins" "$W/standins"
  sed -i "s|\"/repo|\"$R|" "$W"/standins/didcomm-*/Cargo.toml
fi
sed "s|\"/repo\"|\"$R\"|" "$D/manifest.toml" > "$W/h/Cargo.toml"
cat > "$W/h/.cargo/config.toml" <<X
[source."git+https://github.com/hyperledger/aries-askar?rev=4f29d43d584c4a1f1f982c4511824421aeccd2db"]
git = "https://github.com/hyperledger/aries-askar"
rev = "4f29d43d584c4a1f1f982c4511824421aeccd2db"
replace-with = "models"
[source.models]
directory = "$W/models"
[net]
offline = true
X
cd "$W/h" || exit 3
cargo build -q --offline 2> "$W/log" || { tail -30 "$W/log"; exit 3; }
"$W/t/debug/harness"
