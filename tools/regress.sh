#!/bin/bash
# run the quick checks of the given (default: all) properties one after another; prints the summary line of each
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']))")}
for i in $ids; do ./check.sh $i quick --no-evidence 2>&1 | grep -v '^--' | tail -4; done
