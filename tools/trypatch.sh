#!/bin/bash
# trypatch.sh PATCH ID...: quick checks against a copy of /repo with a patch
# (-R before PATCH: the patch reversed)
R=""; if [ "$1" = -R ]; then R=-R; shift; fi
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/try.XXXXXX)
mkdir $D/r && git -C /repo archive HEAD | tar x -C $D/r
(cd $D/r && patch -s -p1 $R < "$P" > $D/log 2>&1) || { echo "PATCH FAILS $(head -3 $D/log)"; exit 9; }
for i in "$@"; do
  VERIF_REPO=$D/r timeout 900 "$(dirname "$0")/../check.sh" $i 2>&1 | grep -aE "^(part=|VIOLATION|OK|CHECK ERROR)" | cut -c1-220 | sed "s/^/$i: /"
done
python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$D"
