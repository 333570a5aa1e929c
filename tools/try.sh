#!/bin/bash
# try.sh <patch|-R:commit|-> ID...: run checks against a patched scratch copy of /repo
P=$1; shift
X=${X:-/tmp/exp}
mkdir -p $X/src $X/build
[ -d $X/build/driver ] || cp -a /verif/build/driver $X/build/
rsync -a --delete --exclude target --exclude .git /repo/ $X/src/
cd $X/src
case $P in
 -) ;;
 -R:*) git -C /repo show ${P#-R:} -- . ':!src/tests' | patch -R -p1 -s || exit 9 ;;
 *) patch -p1 -s < $P || exit 9 ;;
esac
export KREPO=$X/src KBUILD=$X/build
for i in "$@"; do bash /verif/check.sh $i | cut -c1-${W:-400}; done
