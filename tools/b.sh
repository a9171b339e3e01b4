#!/bin/bash
# build the simulator for development (incremental, in a target directory of its own)
. /opt/vp/env.sh >/dev/null 2>&1; cd /verif/sim && CARGO_INCREMENTAL=1 cargo build --release --offline --target-dir /tmp/simt 2>&1 | grep -E "^(error|warning: unused)|^  -->|Finished" -A6 | tail -${1:-40}
