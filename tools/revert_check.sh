#!/bin/bash
# usage: revert_check.sh <scratch copy of /repo> <check id> <commit>...   (each fix reverted in turn must be reported)
W=$1; ID=$2; shift 2
for c in "$@"; do
  git -C "$W" checkout -q -- . && git -C "$W" revert -n "$c" >/dev/null 2>&1 || { echo "$c: does not revert"; git -C "$W" reset -q --hard; continue; }
  echo "$c $(git -C "$W" log -1 --format=%s "$c"): $(VERIF_REPO=$W "$(dirname "$0")/../run.sh" "$ID" quick 2>&1 | grep -E 'VIOLATION|HELD|INCON' | head -1 | cut -c1-200)"
  git -C "$W" reset -q --hard
done
