#!/bin/bash
# check.sh <property> [--variant v --part p --case n]   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's working tree and runs the monitors of one property.
cd "$(dirname "$0")" || exit 2
ID=$1
shift
case $ID in C[0-9][0-9] | build) ;; *) echo "usage: check.sh C01..C20"; exit 2 ;; esac
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
ROOT=$PWD
mkdir -p evidence replays
[ "$ID" = build ] || rm -f evidence/"$ID".*.part

features() {
  case $1 in
    default) echo "" ;;
    sso32) echo "sso32 tracing" ;;
    sso64) echo "sso64" ;;
    lv10) echo "lv10" ;;
    lv20) echo "lv20" ;;
    *) echo "?" ;;
  esac
}

build() { # variant
  local f
  f=$(features "$1")
  [ "$f" = "?" ] && { echo "unknown variant $1"; exit 2; }
  # cargo goes by modification times and would miss a file replaced by an older one
  local sum
  sum=$(find "$ROOT/../repo/src" "$ROOT/../repo/Cargo.toml" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ -d "target/$1" ] && [ "$sum" != "$(cat "target/sum-$1" 2>/dev/null)" ]; then
    cargo clean --offline --release --manifest-path harness/Cargo.toml --target-dir "target/$1" \
      -p mqtt-protocol-core -p vh >/dev/null 2>&1
  fi
  if ! cargo build --offline --release --manifest-path harness/Cargo.toml \
      --target-dir "target/$1" --features "$f" >"target/build-$1.log" 2>&1; then
    tail -60 "target/build-$1.log"
    echo "build of the harness against /repo failed ($1)"
    exit 2
  fi
  echo "$sum" >"target/sum-$1"
}

mkdir -p target
WANT=""
prev=""
for a in "$@"; do
  [ "$prev" = --variant ] && WANT=$a
  prev=$a
done

if [ "$ID" = build ]; then
  for v in default sso32 sso64 lv10 lv20; do build $v; done
  echo "setup done"
  exit 0
fi
if [ -n "$WANT" ]; then
  build "$WANT"
  exec "target/$WANT/release/vh" "$ID" --out "$ROOT" --tier "$TIER" --seed "$SEED" "$@"
fi

VARIANTS="default"
case $ID in
  # these decide code that differs between the small-buffer feature sets
  C02 | C03 | C04 | C18) VARIANTS="sso32 sso64 lv10 lv20 default" ;;
esac
for v in $VARIANTS; do
  build "$v"
  scale=${VH_SCALE:-1}
  [ "$v" != default ] && scale=$(awk "BEGIN{print $scale*0.25}")
  VH_SCALE=$scale "target/$v/release/vh" "$ID" --out "$ROOT" --tier "$TIER" --seed "$SEED" --variant "$v" "$@"
  rc=$?
  if [ $rc -ne 0 ]; then
    case $rc in
      132 | 134 | 135 | 136 | 139)
        # illegal instruction, abort, bus error, arithmetic fault, segmentation fault: the harness has no
        # unsafe code but a counting allocator, so the code under test brought the process down
        r=replays/$ID-$v-crash-$SEED.json
        printf '{"property":"%s","variant":"%s","tier":"%s","seed":%s,"what":"the process died with status %s"}\n' \
          "$ID" "$v" "$TIER" "$SEED" "$rc" >"$r"
        echo "VIOLATION property=$ID replay=$ROOT/$r"
        echo "  the monitored process was brought down (status $rc)"
        exit 1 ;;
    esac
    [ $rc -gt 2 ] && { echo "the monitored process ended with status $rc"; exit 2; }
    exit $rc
  fi
done
exit 0
