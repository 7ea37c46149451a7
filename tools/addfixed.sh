#!/bin/bash
# addfixed.sh PROP N: appends the last N commits of /repo to known_findings.txt as fixed
git -C /repo log --reverse --format="fixed: property=$1 %h %s" -n $2 | sed 's/ fix: / /' >> /verif/known_findings.txt
