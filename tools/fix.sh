#!/bin/bash
# tools/fix.sh Pxx "what failed" "commit subject": commits /repo's diff as a fix and records it
set -e
cd /repo && git diff --quiet && { echo "nothing to commit"; exit 1; }
git commit -qam "fix: $3"
echo "fixed: property=$1 $(git rev-parse --short=10 HEAD) $2" >> /verif/known-findings.txt
git log --oneline | head -1
