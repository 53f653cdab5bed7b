#!/bin/bash
# newseed.sh ID: takes the working-tree change of /repo as seeded/ID/patch.diff, undoes it, copies the demo helpers
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp /verif/tools/demo/mgr.c /verif/tools/demo/mm.py $d/
printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh
