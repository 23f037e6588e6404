#!/bin/bash
# mkseed.sh ID PROPERTY : (re)fill /verif/seeded/ID with the common demo files and
# the current diff of the scratch tree /tmp/plant (a copy of /repo)
set -e
d=/verif/seeded/$1; mkdir -p $d
cp /verif/tools/demo/demolib.py /verif/tools/demo/demo.sh $d/
tar -C /verif --sort=name --mtime=2020-01-01 --owner=0 --group=0 -cf - shim/include shim/src shim/gen | gzip -n > $d/shim.tgz
git -C /tmp/plant diff > $d/patch.diff
