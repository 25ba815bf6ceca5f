#!/bin/bash
# tools/try_patch.sh PATCHFILE|revert:COMMIT ID [args]: runs a check on a scratch copy with the change
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1; ID=$2; shift 2
W=$(mktemp -d /tmp/try_XXXXXX)
cp -a /repo/. $W/
cd $W
case $P in
 revert:*) for c in ${P#revert:}; do git revert -n $c >/dev/null || exit 9; done;;
 *) git apply $P || exit 9;;
esac
cd "$V"
mkdir -p $W/ev
PBT_REPO=$W bash check.sh $ID "$@" 2>&1 | cut -c1-600 | tail -${TAIL:-12}
rm -rf "$W"
