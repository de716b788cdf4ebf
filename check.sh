#!/bin/bash
# check.sh build | check.sh PROPERTY TIER | check.sh PROPERTY --replay FILE
# Builds the harness against /repo's current tree and runs one property's check.
set -u
cd "$(dirname "$0")" || exit 2
HERE=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$HERE/harness/target"
unset RUSTFLAGS CARGO_BUILD_TARGET
export BJ_VERIF="$HERE"
REPO=/repo
build() {
  mkdir -p harness/target
  exec 9>harness/target/.bjlock
  flock 9
  local h old
  h=$(cd $REPO && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  old=$(cat harness/target/.bjhash 2>/dev/null)
  if [ "$h" != "$old" ]; then
    # never trust time stamps alone
    rm -f harness/target/.bjhash
    for c in core parser printer schema-comparator validator visibility; do
      cargo clean --offline --quiet --manifest-path harness/Cargo.toml -p bluejay-$c >/dev/null 2>&1
    done
  fi
  if ! cargo build --offline --quiet --manifest-path harness/Cargo.toml >harness/target/build.log 2>&1; then
    tail -60 harness/target/build.log
    echo "harness build failed"
    exit 2
  fi
  echo "$h" >harness/target/.bjhash
  exec 9>&-
}
build
[ "${1:-}" = build ] && exit 0
ID=$1
case "${2:-quick}" in
  --replay) exec harness/target/debug/bjcheck "$ID" --replay "$3" ;;
  thorough) LIMIT=6000 ;;
  *) LIMIT=800 ;;
esac
timeout -k 5 $LIMIT harness/target/debug/bjcheck "$ID" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || exit 2
exit $rc
