#!/bin/bash
# record.sh PROPERTY: lists new fix commits of /repo in KNOWN_FINDINGS.txt
cd /verif && for h in $(git -C /repo log --reverse --format=%h 73ee988..HEAD); do grep -q $h KNOWN_FINDINGS.txt || echo "fixed: property=$1 $h $(git -C /repo log -1 --format=%s $h | sed 's/^fix: //')" >> KNOWN_FINDINGS.txt; done
