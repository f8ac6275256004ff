#!/bin/bash
# Builds every monitor from the committed files, offline.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
source /opt/vp/env.sh >/dev/null 2>&1
cd "$here/harness" || exit 1
cargo build --offline --quiet --features rug --bins && cargo build --offline --quiet --features rug --profile plain --bin deep
