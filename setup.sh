#!/bin/bash
# Nothing is prebuilt: each check compiles its harness from /repo's current
# tree.  This only verifies that the tools the checks need are present.
set -e
cd "$(dirname "$0")"
command -v clang++ >/dev/null && command -v python3 >/dev/null
python3 - <<'P'
import json
for l in open("properties.jsonl"):
    json.loads(l)
json.load(open("MANIFEST.json")); json.load(open("checks.json"))
P
echo 'int main(){}' | clang++ -x c++ - -fsyntax-only
echo setup ok
