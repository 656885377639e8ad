#!/bin/bash
# seedtest.sh [-j N] ID...: per seeded bug: demo on the clean tree, then (patched) build, demo, stable tests, the
# property's quick check. Each runs in a namespace of its own, over a scratch copy of /repo; /repo is not touched.
# Environment: NOTEST=1, NODEMO=1, NOCHECK=1 skip parts.
J=3; [ "$1" = -j ] && { J=$2; shift 2; }
if [ "$1" = --one ]; then
  . /opt/vp/env.sh
  id=$2; S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  ip link set lo up 2>/dev/null
  r="$id $P"
  if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/seed.$id.clean 2>&1; r="$r clean=$?"; fi
  git -C /repo apply $S/patch.diff || { echo "$r APPLY-FAIL"; exit; }
  (cd /repo && go build ./... ) >/tmp/seed.$id.build 2>&1; r="$r build=$?"
  if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/seed.$id.demo 2>&1; r="$r demo=$?"; fi
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1
    r="$r missing=$(python3 /verif/tools/stable.py /tmp/seed.$id.json)"; fi
  if [ -z "$NOCHECK" ]; then bash /verif/run.sh ${CHECK:-$P} quick >/tmp/seed.$id.check 2>&1; r="$r check=$? $(grep -m1 -c "VIOLATION property=$P" /tmp/seed.$id.check)"; fi
  echo "$r"
  exit
fi
one() {
  R=$(mktemp -d /tmp/seedrepo.XXXXXX); cp -a /repo/. $R
  E=$(mktemp -d /tmp/seedev.XXXXXX)
  unshare -Urmn bash -c "mount --bind $R /repo && mount --bind $E /verif/evidence && exec bash /verif/tools/seedtest.sh --one $1"
  rm -rf "$R" "$E"
}
export -f one
printf '%s\n' "$@" | xargs -P $J -I{} bash -c 'one {}'
