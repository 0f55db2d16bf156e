#!/bin/bash
# mkseed.sh ID : takes the present diff of /tmp/seedwt as the patch of seeded/ID, checks tests and demo there
set -u
id=$1; d=/verif/seeded/$id; wt=/tmp/seedwt
mkdir -p $d
git -C $wt diff > $d/patch.diff
cp -n /verif/tools/demo/lib.py $d/lib.py
[ -f $d/demo.sh ] || printf '#!/bin/bash\nPYTHONHASHSEED=0 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n' > $d/demo.sh
( cd $wt && timeout 280 bash $d/demo.sh >/tmp/demo_out 2>&1 ); bad=$?
( cd /repo && timeout 280 bash $d/demo.sh >/tmp/demo_ok 2>&1 ); ok=$?
echo "$id demo: unchanged=$ok patched=$bad"; tail -2 /tmp/demo_ok; tail -2 /tmp/demo_out
