#!/bin/bash
# regenerate properties.jsonl and MANIFEST.json and commit
cd /verif && python3 tools/props.py > properties.jsonl && python3 tools/manifest.py > MANIFEST.json && git add -A && git commit -qm "$1" && git status --short | head -3
