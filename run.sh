#!/bin/bash
# run.sh PROPERTY TIER : builds the monitor from /repo's current working tree and runs it.
# Exit 0 held on everything observed, 1 violated (VIOLATION line printed), 2 no answer.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here VERIF_TIER=$tier CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
case $id in
  C01|C02|C03) pkg=slice bin=slice ;;
  *) pkg=harness bin=monitor ;;
esac
mkdir -p "$here/evidence/replay"
cd "$here/$pkg" || exit 2
log=$here/evidence/build-$pkg.log
if ! timeout 600 cargo build --offline --target-dir "$here/$pkg/target" >"$log" 2>&1; then
  grep -E '^error' -A6 "$log" | head -40
  echo "NO ANSWER property=$id: the monitor does not build against /repo"
  exit 2
fi
cur=$(mktemp -d "$here/evidence/current.XXXXXX")
limit=$([ "$tier" = thorough ] && echo 5400 || echo 600)
MONITOR_CURRENT=$cur timeout -k 5 $limit "$here/$pkg/target/debug/$bin" "$id" --tier "$tier" "${@:3}"
rc=$?
if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
  # The code under test ended the process: overflowed its stack or aborted. Nothing else does.
  rep=$here/evidence/replay/$id-crash.txt
  { echo "property $id: the process ended with status $rc"; echo "cases running then (stream case), seed ${VERIF_SEED:-1}:"; cat "$cur"/*; } >"$rep"
  cat "$rep"
  echo "VIOLATION property=$id replay=$rep"
  rc=1
elif [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "NO ANSWER property=$id: the monitor ended with status $rc"
  rc=2
fi
rm -rf "$cur"
exit $rc
