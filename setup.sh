#!/bin/bash
# Builds the framework once; every check repeats what it needs from /repo's working tree.
. "$(dirname "$0")/tools/env.sh"
set -e
exec 9>"$B/lock"
flock 9
prepare
build_plain "$B/bin/mcp"
build_inst "$B/bin/mci" full
echo "setup done"
