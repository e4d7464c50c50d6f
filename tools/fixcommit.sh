#!/bin/bash
# fixcommit.sh PROP "subject": tests /repo's working tree and commits it as a fix; records it in known_table.py
bash /opt/vp/test.sh /tmp/fx.json >/dev/null 2>&1
python3 -c "
import json,sys;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/fx.json'))['passed']);print('TESTS', 'ok' if not b else 'BROKEN %s'%b);sys.exit(bool(b))" || exit 1
git -C /repo commit -qam "fix: $2" || exit 1
cd /verif
python3 - "$1" "$2" <<'P'
import sys
p='known_table.py';t=open(p).read();i=t.index("]\nKNOWN")
open(p,'w').write(t[:i]+"    (%r, %r, None),\n"%tuple(sys.argv[1:])+t[i:])
P
python3 mkknown.py
git -C /repo status --short | head -3
