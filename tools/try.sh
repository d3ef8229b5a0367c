#!/bin/bash
# try.sh PATCH PROPERTY...: run checks against a scratch copy of /repo with PATCH applied
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/try-XXXXXX)
git clone -q /repo "$d/r" && cp /repo/Cargo.lock "$d/r/" 2>/dev/null
git -C "$d/r" apply "$p" || { echo "patch does not apply"; exit 3; }
for x in "$@"; do VP_REPO="$d/r" python3 "$(dirname "$0")/../engine/check.py" "$x" quick; done
rm -rf -- "$d"
