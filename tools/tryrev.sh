#!/bin/bash
# tryrev.sh COMMIT CHECK...: run checks with one fix commit reverted in the working tree
c=$1; shift
git -C /repo show $c | git -C /repo apply -R || exit 3
for p in "$@"; do VERIF_TIME=${T:-10} /verif/check $p 2>&1 | cut -c1-250 | grep -E "VIOLATION|cases,|BUILD" ; done
git -C /repo checkout -- .
