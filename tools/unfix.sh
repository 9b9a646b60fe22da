#!/bin/bash
# unfix.sh COMMIT PROP...: do the checks report the defect that COMMIT repaired?
git -C /repo show "$1" | git -C /repo apply -R -3 - || git -C /repo show "$1" | git -C /repo apply -R -C1 - || exit 3
for p in "${@:2}"; do
  /verif/check $p quick 2>&1 | grep -E "VIOLATION|runs,"
done
git -C /repo reset -q; git -C /repo checkout -q -- .
