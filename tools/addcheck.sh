#!/bin/bash
# addcheck.sh p03: register a check module in checks/mod.rs"
m=$1; U=${m^^}
sed -i "s/^pub mod ops;/pub mod ops;\npub mod $m;/; s/^        _ => {\$/        \"$U\" => $m::run(ctx),\n        _ => {/" "$(dirname "$0")/../mc/src/checks/mod.rs"
