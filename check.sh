#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]: build the harness crate(s) that decide the property
# against /repo's working tree and run the exploration.
set -u
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
export MC_VERIF="$V"
# property -> harness crate
CRATE=$(awk -v id="$ID" '$1==id {print $2}' "$V/checks.tsv")
FEAT=$(awk -v id="$ID" '$1==id {print $3}' "$V/checks.tsv")
if [ -z "$CRATE" ]; then echo "unknown property $ID" >&2; exit 2; fi
build() { # crate features targetdir
  local log; log=$(mktemp)
  one() { (cd "$V/harness/$CRATE" && CARGO_TARGET_DIR="$2" cargo build --offline --release --locked $1 >"$log" 2>&1); }
  if ! one "$2" "$3"; then
    # the adversaries built on the library's own prover helpers may be all that fails to compile
    if grep -q '^cheat = ' "$V/harness/$1/Cargo.toml" && one "--no-default-features $2" "$3"; then
      echo "built harness/$1 without its helper-based adversaries" >&2; rm -f "$log"; return
    fi
    tail -60 "$log" >&2; rm -f "$log"; echo "build of harness/$1 failed" >&2; exit 2
  fi
  rm -f "$log"
}
if [ "$FEAT" = both ]; then
  build "$CRATE" "--features parallel" "$V/target/par"
  build "$CRATE" "" "$V/target"
  MC_PAR="$V/target/par/release/mc-$CRATE" exec "$V/target/release/mc-$CRATE" "$ID" "$TIER"
elif [ "$FEAT" = cli ]; then
  # the tool's own binaries, as its users build them
  log=$(mktemp)
  if ! (cd /repo && CARGO_TARGET_DIR="$V/target/cli" cargo build --offline --release -p zkp-cli >"$log" 2>&1); then
    tail -60 "$log" >&2; rm -f "$log"; echo "build of zkp-cli failed" >&2; exit 2
  fi
  rm -f "$log"
  build "$CRATE" "" "$V/target"
  MC_TOOL="$V/target/cli/release" exec "$V/target/release/mc-$CRATE" "$ID" "$TIER"
elif [ "$FEAT" = scripts ]; then
  # the contract scripts are written for a nightly compiler
  export RUSTC_BOOTSTRAP=$(ls "$V/harness/$CRATE/scripts" | paste -sd,)
  log=$(mktemp)
  if ! (cd "$V/harness/$CRATE" && CARGO_TARGET_DIR="$V/target/scripts" cargo build --offline --release --locked >"$log" 2>&1); then
    # a script that no longer compiles against the library of the same tree is itself a violation
    bad=$(for s in $(ls "$V/harness/$CRATE/scripts"); do grep -q "could not compile .$s. " "$log" && echo "$s"; done)
    if [ -n "$bad" ]; then
      mkdir -p "$V/replays"; cp "$log" "$V/replays/$ID-build.log"; rm -f "$log"
      grep -m3 -A6 '^error' "$V/replays/$ID-build.log"
      echo "contract scripts that do not compile:" $bad
      echo "VIOLATION property=$ID replay=$V/replays/$ID-build.log"
      exit 1
    fi
    tail -60 "$log" >&2; rm -f "$log"; echo "build of harness/$CRATE failed" >&2; exit 2
  fi
  rm -f "$log"
  exec "$V/target/scripts/release/mc-$CRATE" "$ID" "$TIER"
else
  build "$CRATE" "" "$V/target"
  exec "$V/target/release/mc-$CRATE" "$ID" "$TIER"
fi
