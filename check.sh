#!/bin/bash
# check.sh PROPERTY   rebuilds the explorer from /repo's working tree and decides one property (VERIF_TIER=quick|thorough)
V=$(cd "$(dirname "$0")" && pwd); export VERIF_HOME=$V; id=$1; tier=${VERIF_TIER:-quick}; mkdir -p "$V/evidence" "$V/build"
what=mc; exe=mc; [ "$id" = C08 ] && what=san && exe=mcsan; [ "$id" = C16 ] && what=mat && exe=mat
case $id in C10|C11) what=race; exe=mcrace;; esac
log=$V/build/build-$id.log
if ! bash "$V/build.sh" $what >"$log" 2>&1; then cat "$log" >&2; echo "the explorer cannot be built from /repo" >&2; exit 2; fi
rm -f "$V"/replay/"$id"-*
limit=700; [ "$tier" = thorough ] && limit=840
exec "$V/build/$exe" --check "$id" --tier "$tier" --limit $limit --evidence "$V/evidence/$id.json"
