#!/bin/bash
# try.sh TREE ID... : runs the quick checks of the given properties against another tree than /repo (for planted bugs).
# Prints one line per property: its exit status and verdict.
tree=$1; shift
v=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh; export GOSUMDB=off
t=$(mktemp -d /tmp/try.XXXXXX)
mkdir -p $t/verif $t/noise
cp $v/known_findings.json $t/verif/
sed "s#=> /repo#=> $tree#" $v/harness/go.mod > $t/go.mod; cp $v/harness/go.sum $t/go.sum
cd $v/harness
go build -modfile=$t/go.mod -o $t/vmon ./vmon || exit 2
for id in "$@"; do
  bin=$t/vmon
  case " A08 I01 I02 B09 D13 S04 C01 E04 " in *" $id "*)
    if [ ! -f $t/vmonr ]; then
      go run -modfile=$t/go.mod ./noisegen -repo $tree -out $t/noise >/dev/null &&
      go build -modfile=$t/go.mod -race -tags vmonnoise -overlay $t/noise/overlay.json -o $t/vmonr ./vmon || exit 2
    fi
    bin=$t/vmonr ;;
  esac
  VERIF_DIR=$t/verif timeout 900 $bin -prop $id -seed ${SEED:-1} -tier ${TIER:-quick} > $t/out 2>&1
  echo "$id exit $? $(grep -v '^KNOWN\|^VIOLATION\|^note' $t/out | head -1 | cut -c1-260)"
done
rm -rf "$t"
