#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Exit 0: held.  Exit 1 with a VIOLATION line: not.  Anything else: no answer.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
rm -f "$here/evidence/$id.json"
mkdir -p "$here/evidence/replays"
bash "$here/bin/build.sh" n64r n64c n32r n32c n64n || exit 2
exec "$here/.build/sim" run "$id" --tier "$tier" --seed "$seed" --libs "$here/.build/libs" \
    --out "$here/evidence/$id.json" --replays "$here/evidence/replays"
