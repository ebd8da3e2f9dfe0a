#!/bin/bash
# Nothing to build: the checks import /repo directly. Verifies the interpreter and the schema of our files.
here="$(cd "$(dirname "$0")" && pwd)"
/opt/venv/bin/python -c "import json;json.load(open('$here/MANIFEST.json'));[json.loads(l) for l in open('$here/properties.jsonl')]"
