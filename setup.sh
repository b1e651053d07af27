#!/bin/bash
# builds what every check needs and what does not depend on /repo being unchanged (the checks rebuild the rest)
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --offline --quiet) || exit 1
(cd harness && cargo build --offline --quiet --bins) || exit 1
python3 check.py --warm || exit 1
