#!/bin/bash
# usage: addfix.sh <property> <commit>...   appends "fixed:" lines to known_findings.txt
P=$1; shift
for c in "$@"; do echo "fixed: property=$P $(git -C /repo log -1 --format='%h %s' "$c" | sed 's/ fix: / /')" >> "$(dirname "$0")/../known_findings.txt"; done
