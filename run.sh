#!/bin/bash
# run.sh ID [quick|thorough]: rebuild the engine from /repo's working tree, then run one check.
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$D" || exit 3
bash "$D/mc/b.sh" >&2 || { echo "engine build failed" >&2; exit 3; }
exec "$D/mc/target/release/spade-mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
