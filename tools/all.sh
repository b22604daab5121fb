#!/bin/bash
# tools/all.sh [ids]: run every check on the current tree (or in the directory given by D)
D=${D:-/verif}
for i in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C31}; do
  grep -q "\"$i\"" $D/checks/registry.py || continue
  python3 $D/checks/check.py $i > /tmp/all.$i.log 2>&1; echo "rc=$? $(tail -1 /tmp/all.$i.log)"
done
