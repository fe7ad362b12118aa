#!/bin/bash
# Builds the simulator once, to see that everything needed is here.
set -e
d=$(mktemp -d /tmp/vsimsetup.XXXXXX)
trap 'rm -rf "$d"' EXIT
"$(dirname "$0")/build.sh" "$d"
echo ok
