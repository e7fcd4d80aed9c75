#!/bin/bash
# Runs quick checks on copies of /repo changed by edits which keep its
# behaviour (tools/refactorings/*.diff): every check has to stay quiet.
#   tools/refactor.sh [NAME.diff [ID...]]
here=$(dirname "$(readlink -f "$0")")
names=${1:-$(ls "$here/refactorings")}
shift
ids=${*:-$(ls "$here/../vp/checks" | sed -n 's/^\([a-z][0-9]*\)\.py$/\U\1/p')}
rc=0
for name in $names; do
    copy=$(mktemp -d /tmp/refactorXXXXXX)
    cp -a /repo/. "$copy"
    git -C "$copy" apply "$here/refactorings/$name" || rc=1
    chmod -R a+rX "$copy"
    for id in $ids; do
        (cd "$here/.." && VP_REPO=$copy ./check "$id" quick >"/tmp/refactor.out" 2>&1) ||
            { rc=1; echo "$name $id:"; tail -3 /tmp/refactor.out; }
    done
    rm -rf "$copy"
done
exit $rc
