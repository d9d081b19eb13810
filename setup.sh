#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo's working tree.
set -e
cd "$(dirname "$0")"
verus --version >/dev/null
cargo +nightly --version >/dev/null
python3 -c 'import json; json.load(open("MANIFEST.json"))'
