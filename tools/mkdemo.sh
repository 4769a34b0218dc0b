#!/bin/bash
# mkdemo.sh DIR : copies the demonstration kit into a seeded folder
set -e
S=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$1/kit"
cp $S/tools/kit/kit.sh "$1/"
cp $S/shim/symdiff/* $S/shim/mathlib/mathlib.cc "$1/kit/"
[ -f "$1/demo.sh" ] || printf '#!/bin/bash\n. "$(dirname "$0")/kit.sh"\npython3 "$(dirname "$0")/demo.py" > $W/out 2>&1 || { tail -5 $W/out; exit 1; }\n' > "$1/demo.sh"
chmod +x "$1/demo.sh"
