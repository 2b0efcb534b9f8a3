#!/bin/bash
# revert one fix commit in the working tree of /repo, run one check (expect VIOLATION), restore: revert_test.sh COMMIT CNN
cd /verif || exit 2
git -C /repo diff "$1~1" "$1" | git -C /repo apply -R --3way 2>/dev/null || { echo "can't revert"; git -C /repo reset -q --hard HEAD; exit 2; }
git -C /repo reset -q
./check "$2" 2>&1 | grep -a "^--\|^VIOL\|^C" | cut -c1-260
git -C /repo checkout -q -- .
rm -f replays/"$2"-*.json
