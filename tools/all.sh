#!/bin/bash
# run every claimed check on the current tree (4 at a time); prints the exit codes
cd "$(dirname "$0")/.." || exit 2
bash extract.sh ${VERIF_REPO:-/repo} || exit 2
ids=${*:-$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null)}
printf '%s\n' $ids | xargs -P 6 -I{} sh -c 'VERIF_JUST_EXTRACTED=1 timeout 900 python3 an/check.py {} > /tmp/all.{}.log 2>&1; rc=$?; echo "{} rc=$rc $(grep -h -m2 "^VIOLATION\|Traceback\|Error" /tmp/all.{}.log | cut -c1-200)"'
