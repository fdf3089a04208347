#!/bin/bash
# try.sh <seed id> <check module>...: runs checks against a planted bug, then undoes it
set -u
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
trap 'git -C /repo checkout -- .' EXIT
for c in "$@"; do (cd /verif && timeout 900 ./run $c | grep -v "^  (replay" | tail -4 | cut -c1-260); done
