#!/bin/bash
# mkseed.sh ID PROPERTY  (edits are in /repo's working tree): saves them as a planted bug and undoes them
set -e
d=/verif/seeded/$1; mkdir -p $d; git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp -n /verif/tools/seedtmpl/host.c /verif/tools/seedtmpl/demo.sh $d/ 2>/dev/null || true
test -s $d/patch.diff
