#!/bin/bash
# run.sh ID: decide one property against /repo's working tree.
# run.sh replay FILE: run the case of a replay file again.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V"
need="plain"
id=$1
[ "$id" = replay ] && id=$(basename "$2" | cut -d- -f1)
case $id in
  C20|C21|C23|C33) need="plain alda" ;;
  C22) need="plain race alda-race alda" ;;
  C27) need="plain race alda" ;;
  C18|C19|C24|C25|C26|C29|C30|C32) need="plain alda" ;;
esac
if ! out=$(bash ./build.sh $need 2>&1); then
  echo "$out" >&2
  echo "the checks do not build against this tree" >&2
  exit 3
fi
if [ "$1" = replay ]; then
  exec "$V/.build/bin/verif" replay "$2"
fi
exec "$V/.build/bin/verif" check "$1"
