#!/bin/bash
# all.sh [ids]: run every registered check, 4 at a time; prints exit codes and last lines
cd "$(dirname "$0")/.."
ids="${*:-$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']))")}"
d=$(mktemp -d)
printf '%s\n' $ids | xargs -P ${J:-4} -I{} bash -c "s=\$(date +%s); timeout 880 python3 run.py {} > $d/{}.log 2>&1; echo \"{} rc=\$? \$(( \$(date +%s)-s ))s \$(tail -1 $d/{}.log | cut -c1-200)\""
grep -h "VIOLATION" $d/*.log
rm -rf "$d"
