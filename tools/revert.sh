#!/bin/bash
# revert.sh COMMIT PROP...: runs the quick checks of PROP on a scratch copy of /repo with COMMIT reverted (to see that the check reports the defect it fixed).
C=$1; shift
R=$(mktemp -d /tmp/seedrepo.XXXXXX); cp -a /repo/. $R
E=$(mktemp -d /tmp/seedev.XXXXXX)
git -C /repo show $C > $E/p.diff
git -C $R apply -R $E/p.diff || { echo "cannot revert $C"; rm -rf "$R" "$E"; exit 1; }
for P in "$@"; do
  unshare -Urmn bash -c "mount --bind $R /repo && mount --bind $E /verif/evidence && ip link set lo up 2>/dev/null; /verif/run.sh $P quick" > $E/out 2>&1
  echo "revert $C $P: rc=$?"; grep -m3 -A1 "^case\|VIOLATION" $E/out | cut -c1-300
done
rm -rf "$R" "$E"
