#!/bin/bash
# check.sh <property id>: rebuild from /repo's working tree and decide one
# property. VERIF_TIER selects quick (default) or thorough.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id="$1"
tier="${VERIF_TIER:-quick}"
export RUSTFLAGS="-Awarnings" CARGO_NET_OFFLINE=true
ev="$VERIF_DIR/evidence"
parts="$ev/parts/$id"
mkdir -p "$parts"
rm -f "$parts"/*/*.json

# Parts of the check: profile:binary. "ship" is the same harness without debug
# assertions and overflow checks, which is what users run; "plain" is for the
# large generated catalogs.
case "$id" in
  C04|C15|C19) todo="dev:streams ship:streams" ;;
  C03|C14|C16|C17) todo="dev:streams" ;;
  C06) todo="dev:types ship:types" ;;
  C01|C02|C05|C07|C08|C09|C20) todo="dev:types plain:wide" ;;
  C22) todo="plain:evo dev:types plain:wide" ;;
  *) todo="dev:types" ;;
esac
rc=0
for part in $todo; do
  profile="${part%%:*}"; bin="${part##*:}"
  ( cd mc && { cargo clean --offline -q -p fourleaf --profile "$profile" 2>/dev/null; cargo build --offline -q --profile "$profile" --bin "$bin"; } ) \
    || { echo "HARNESS-ERROR: build failed"; exit 3; }
  dir="$profile"; [ "$profile" = dev ] && dir=debug
  echo "-- $part"
  mkdir -p "$parts/$profile-$bin"
  MC_EVIDENCE_DIR="$parts/$profile-$bin" "mc/target/$dir/$bin" run "$id" "$tier"
  rc=$?
  [ $rc -ne 0 ] && break
done
python3 tools/merge_evidence.py "$id" "$ev" "$parts" || { [ $rc -ne 0 ] || rc=3; }
exit $rc
