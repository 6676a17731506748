#!/bin/bash
# Checks that the simulator builds from the committed files, offline. (Every
# check builds its own: it has to see the tree it is run on.)
here=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
"$here/bin/build.sh" "$d"
