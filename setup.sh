#!/bin/bash
# Builds every check once, so that a broken set-up shows early; the checks build again from /repo's tree.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'PY'
import sys, tempfile, shutil
sys.path.insert(0, ".")
import run
done = set()
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for p, i in sorted(run.PROPS.items()):
        k = (i["pkg"], tuple(b["name"] for b in i.get("bins", [])))
        if k not in done:
            done.add(k)
            run.build(p, work)
            print("built", i["pkg"])
finally:
    shutil.rmtree(work, ignore_errors=True)
PY
