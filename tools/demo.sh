#!/bin/bash
# Builds demo.rs (beside this file) as a test against the workspace derived from /repo and runs it.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/mkws.py || exit 2
W=/opt/vp/ws; N=zz-demo-$$; C=$W/packages/$N
trap 'rm -rf "$C"; python3 /opt/vp/mkws.py >/dev/null' EXIT
mkdir -p "$C/src"
cp "$D/demo.rs" "$C/src/lib.rs"
{ printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n' "$N"
  for d in $(sed -n 's,^// deps: ,,p' "$D/demo.rs"); do printf '%s = { workspace = true }\n' "$d"; done; } > "$C/Cargo.toml"
cd "$W" && timeout 280 cargo test --offline -q -p "$N" -- --nocapture
