#!/bin/bash
# build the simulator without an allocator, for development
. /opt/vp/env.sh >/dev/null 2>&1; cd /verif/sim && CARGO_INCREMENTAL=1 cargo build --profile noalloc --no-default-features --offline --target-dir /tmp/simna 2>&1 | grep -E "^(error|warning: unused)|^  -->|Finished" -A6 | tail -${1:-40}
