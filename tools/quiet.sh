#!/bin/bash
# quiet.sh "seeds" ids...: every check on the unchanged tree, several seeds.
cd "$(dirname "$0")/.."
seeds=$1; shift
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}
for s in $seeds; do for c in $ids; do
  t=$(date +%s); VERIF_SEED=$s ./check $c > /tmp/quiet_$c.log 2>&1; rc=$?
  echo "$c seed=$s rc=$rc $(( $(date +%s)-t ))s $(grep -c KNOWN-FINDING /tmp/quiet_$c.log) known; $(grep VIOLATION /tmp/quiet_$c.log | head -2)"
done; done
