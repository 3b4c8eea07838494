#!/bin/bash
# tryseed.sh ID [CHECK..]: run the check of the seed's property (or the given ones) with the seeded change applied
i=$1; shift
d=/verif/seeded/$i
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 1
for q in $p; do echo "$i $q: $(/verif/check.sh $q quick 2>&1 | grep -E 'VIOLATION|^OK|ERROR' | head -2 | cut -c1-200 | tr '\n' ' ')"; done
git -C /repo checkout -- .
