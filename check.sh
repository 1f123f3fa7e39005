#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]
# Builds the monitors against /repo's current tree and runs those of one property.
# Exit 0: held on everything observed; 1: VIOLATION; 2: no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=mod CGO_ENABLED=${CGO_ENABLED:-1}
id=$1
tier=${2:-${VERIF_TIER:-quick}}
replay=
if [ "$3" = --replay ]; then replay=$4; fi
seed=${VERIF_SEED:-1}

work=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXX") || exit 2
trap 'rm -rf "${work:?}"' EXIT

cd harness || exit 2
race=
case " A08 I01 I02 B09 D13 S04 C01 E04 " in *" $id "*) race=1 ;; esac
if [ -n "$race" ]; then
  # with the race detector, and with pauses between the statements of the code under test
  mkdir "$work/noise"
  if ! { go run ./noisegen -repo /repo -out "$work/noise" &&
         go build -race -tags vmonnoise -overlay "$work/noise/overlay.json" -o "$work/vmon" ./vmon; }; then
    echo "building without noise"
    go build -race -o "$work/vmon" ./vmon || exit 2
  fi
else
  go build -o "$work/vmon" ./vmon || exit 2
fi
args=(-prop "$id" -seed "$seed" -tier "$tier")
if [ -n "$replay" ]; then
  args+=(-replay "$replay")
else
  args+=(-evidence "$VERIF_DIR/evidence/$id.json")
fi
"$work/vmon" "${args[@]}"
