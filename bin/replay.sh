#!/bin/bash
# replay.sh FILE: run a recorded schedule against the working tree of /repo.
# Exit 1 and the VIOLATION line if it fails again, 0 if it does not.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/bin/build.sh" n64r n64c n32r n32c n64n || exit 2
exec "$here/.build/sim" replay "$1" --libs "$here/.build/libs"
