#!/bin/bash
# Builds everything once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 1
for p in $(sort -u -k2 harness/groups.txt | awk '{print $1}'); do
  VERIF_BUILD_ONLY=1 ./run.sh "$p" quick || exit 1
done
exit 0
