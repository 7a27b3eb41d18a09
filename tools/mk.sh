#!/bin/bash
# mk.sh ID PROP FILE NEEDS BREAKS <<< python: edits the scratch copy with a python snippet on stdin (s -> s) and records the planted bug
id=$1 prop=$2 file=$3; d=/verif/seeded/$id; mkdir -p $d; cat > /tmp/sw/edit.py
cd /tmp/sw/repo && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD || exit 3
python3 - "$file" <<'P' || exit 1
import sys
p=sys.argv[1]; s0=s=open(p).read(); exec(open('/tmp/sw/edit.py').read())
assert s!=s0, "no change"
open(p,'w').write(s)
P
git diff > $d/patch.diff; git checkout -qf FETCH_HEAD
cp /verif/tools/vsim.py $d/
printf '#!/bin/bash\n# run in the repository root after the build\nexec python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh
python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$d/meta.json','w'),indent=1)" "$prop" "$4" "$5"
