#!/bin/bash
# bug.sh ID PROPERTY NEEDS BREAKS FILE OLD NEW [IDX] < demo.cpp   (works on a private copy of /repo, bind-mounted in a namespace; log in /tmp/w/bug_ID.log)
id=$1; d=/verif/seeded/$id; mkdir -p $d /tmp/w
cat > $d/demo.cpp
[ -d /tmp/w/repo2 ] || cp -a /repo /tmp/w/repo2
export B_ARGS="$(printf '%q ' "$@")"
(flock 9; git -C /tmp/w/repo2 checkout -q -- . ; git -C /tmp/w/repo2 -c safe.directory='*' pull -q --ff-only /repo HEAD; unshare -Urm bash -c '
mount --bind /tmp/w/repo2 /repo || exit 9
eval "set -- $B_ARGS"
git config --global --add safe.directory "*" 2>/dev/null
cd /repo; git checkout -q -- .; 
id=$1 prop=$2 needs=$3 breaks=$4; shift 4
python3 /verif/tools/sub.py "$@" || { echo "SUB FAILED"; exit 1; }
bash /verif/tools/mkbug.sh "$id" "$prop" "$needs" "$breaks"
' > /tmp/w/bug_$id.log 2>&1 ) 9>/tmp/w/bug.lock &
