#!/bin/bash
# Nothing is installed: this only confirms that the pieces every check needs are here.
cd "$(dirname "$0")/.." || exit 1
for t in java gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "missing TLC"; exit 1; }
mkdir -p evidence
python3 -m compileall -q lib checks >/dev/null
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json"))'
