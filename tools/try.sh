#!/bin/bash
# try.sh FILE OLD NEW ID...: run checks on a scratch copy with one replacement
rm -rf /tmp/w/try; cp -a /repo /tmp/w/try
python3 - "$1" "$2" "$3" <<'P'
import sys
p='/tmp/w/try/dorado/'+sys.argv[1]; s=open(p).read()
assert s.count(sys.argv[2])>=1, 'no match'
open(p,'w').write(s.replace(sys.argv[2],sys.argv[3]))
P
shift 3
for i in "$@"; do DORADO_REPO=/tmp/w/try VERIF_OUT=/tmp/w/seedout timeout 900 python3 /verif/run.py $i | cut -c1-900; done
