#!/bin/bash
# catch.sh "IDS" [PROPS]: apply each planted bug to /repo, build with the dev target dir, run its (or the given) quick checks, undo
mkdir -p /tmp/vd
for id in $1; do
  p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  (cd /verif/sim && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER= cargo build --offline -q --release --target-dir /tmp/simt >/tmp/simt.log 2>&1) || { tail -5 /tmp/simt.log; }
  case " $p " in *" C17 "*) (cd /verif/sim && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER= cargo build --offline -q --profile noalloc --no-default-features --target-dir /tmp/simt/noalloc >/tmp/simt.log 2>&1);; esac
  git -C /repo apply -R /verif/seeded/$id/patch.diff
  for q in $p; do
    bin=/tmp/simt/release/sim; [ $q = C17 ] && bin=/tmp/simt/noalloc/noalloc/sim
    VERIF_DIR=/tmp/vd timeout 600 $bin check $q quick >/tmp/vd/$id.$q.log 2>&1; r=$?
    echo "$id $q exit=$r $(grep -m1 ^VIOLATION /tmp/vd/$id.$q.log)"
  done
done
