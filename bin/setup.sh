#!/bin/bash
# Build everything once, so that the checks start warm.
exec bash "$(dirname "$0")/build.sh" n64r n64c n32r n32c n64n
