#!/bin/bash
# usage: mutants.sh LIST RESULTS WORKER WORKERS: tries the changes of LIST (file
# and number, see mutate) one after another: those which build and pass the
# tests go through the checks of the packages which they touch (developer tool,
# not a check).
list="$(realpath "$1")"; results="$(realpath -m "$2")"
set -- "$list" "$results" "$3" "$4"
source "$(dirname "$(realpath "$0")")/private.sh"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
w=$(mktemp -d /tmp/verif-mutants.XXXXXX)
cp -a "$(dirname "$(dirname "$(realpath "$0")")")" "$w/verif"
checks() {
  case "$1" in
  mat/dense_grad.go) echo G05 E03 M04 E04 N08 ;;
  mat/dense_marshaling.go|mat/fbs/*) echo S01 S03 S02 ;;
  mat/dense_formatting.go) echo M06 ;;
  mat/dense_new.go) echo M03 M05 M01 M04 ;;
  mat/float/*) echo M01 S01 N05 M03 ;;
  mat/internal/matfuncs/*|mat/mathfunctions.go) echo M01 G01 G04 ;;
  mat/internal/f*) echo M02 M01 M03 ;;
  mat/rand/*|mat/internal/rand/*) echo R01 R02 ;;
  mat/gradfn/dropout.go) echo R02 G05 ;;
  mat/gradfn/*) echo G05 G03 G01 G02 G04 ;;
  mat/*) echo M01 M03 M05 M04 M02 G02 M06 G05 G01 ;;
  ag/*) echo E03 E01 E02 E04 G05 N08 ;;
  nn/embedding/*) echo N05 S02 N01 ;;
  nn/recurrent/*|nn/birnn/*|nn/gnn/*) echo N02 N01 S02 ;;
  nn/attention/*) echo N03 N01 S02 ;;
  nn/crf/*) echo N04 N01 S02 ;;
  nn/convolution/*|nn/pooling/*) echo N06 N01 S02 ;;
  nn/normalization/*) echo N07 N01 S02 ;;
  nn/dropout/*) echo R02 N10 ;;
  nn/*/*) echo N10 N01 S02 N08 ;;
  nn/*) echo N01 S02 S03 N05 ;;
  optimizers/decay/*) echo O04 ;;
  optimizers/gradclipper/*) echo O03 ;;
  optimizers/*) echo O01 O02 S02 O03 ;;
  losses/*) echo O05 ;;
  initializers/*) echo R02 R01 ;;
  esac
}
i=-1
while read -r f n; do
  i=$((i + 1))
  [ $((i % $4)) = "$3" ] || continue
  grep -q "^$f	$n	" "$results" 2>/dev/null && continue
  cd /repo || exit 3
  git checkout -q -- .
  /tmp/mutate "$f" "$n" || continue
  verdict=""
  if ! (ulimit -v 16000000; timeout 100 go test -vet=off -count=1 "./$(dirname "$f")" >/dev/null 2>&1); then verdict=tests
  else
    verdict=SURVIVED
    for p in $(checks "$f"); do
      timeout 400 "$w/verif/run.sh" "$p" quick >"$w/out" 2>&1; rc=$?
      if [ $rc != 0 ]; then verdict="$p:$rc"; break; fi
    done
    if [ $verdict = SURVIVED ] && ! (ulimit -v 16000000; timeout 200 go test -vet=off -count=1 ./... >/dev/null 2>&1); then verdict=tests; fi
  fi
  git checkout -q -- .
  printf '%s\t%s\t%s\t%s\n' "$f" "$n" "$verdict" "$(/tmp/mutate "$f" | sed -n "$((n + 1))p" | cut -f2-)" >> "$results"
done < "$list"
rm -rf "$w"
