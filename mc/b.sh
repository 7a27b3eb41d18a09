#!/bin/bash
# Build the engine (offline) against /repo's current working tree.
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
cd "$D" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target"
export RUSTFLAGS="--cfg spade_verif -Awarnings"
exec cargo build --release --offline --quiet "$@"
