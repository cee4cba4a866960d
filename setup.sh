#!/bin/bash
# builds the extractor and the harness (the checks build them again when they are missing)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
(cd extract && cargo build --offline --quiet)
(cd harness && cargo build --offline --quiet) || true
