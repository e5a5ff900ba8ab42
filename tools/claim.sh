#!/bin/bash
# claim.sh ID...: mark properties as claimed and regenerate the derived files
cd "$(dirname "$0")/.."
for id in "$@"; do python3 - "$id" <<'P'
import sys,re
s=open('tools/props.py').read()
i=s.index('prop("%s"'%sys.argv[1]); j=s.find('\nprop("',i+1); j=len(s) if j<0 else j
open('tools/props.py','w').write(s[:i]+s[i:j].replace(', claimed=False, reason=UC','')+s[j:])
P
done
python3 tools/gen.py
