# sourced by demo.sh: builds the tool from the current tree, makes a scratch directory
set -u
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1
find mutagenyx mutagenyx_lib \( -name lib.rs -o -name main.rs \) -exec touch {} +
cargo build --offline -q 2>/dev/null || { echo "build failed"; exit 3; }
M=$PWD/target/debug/mutagenyx
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
python3 "$D/ast.py" sol > "$W/c.sol_json.ast"
python3 "$D/ast.py" vy > "$W/c.vy_json.ast"
cp "$W/c.sol_json.ast" "$W/c.json"
cp "$W/c.vy_json.ast" "$W/v.json"
mkdir "$W/tmp"; export TMPDIR="$W/tmp"
cd "$W" || exit 3
