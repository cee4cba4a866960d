#!/bin/bash
# names.sh [SRC]: writes specs/names.txt from the tree the hints are written for
cd "$(dirname "$0")/.." && (cd extract && cargo build --offline -q) && rm -f specs/names.txt && extract/target/debug/extract --src "${1:-/repo/src}" --specs specs --out /tmp/names-out.rs --names specs/names.txt > /dev/null && rm -f /tmp/names-out.rs && wc -l specs/names.txt
