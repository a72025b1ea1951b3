#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a spec: edits (file, old, new) applied to a
scratch index of /repo give patch.diff; the demo is a Rust integration test placed
in CRATE/tests for the run, or a shell script. Usage: mkseed.py SPEC.py (defines
ID, PROPERTY, EDITS, NEEDS, BREAKS, CRATE, DEMO or SCRIPT)."""
import sys,os,json,subprocess,difflib
ns={}
exec(open(sys.argv[1]).read(),ns)
D=f"/verif/seeded/{ns['ID']}"; os.makedirs(D,exist_ok=True)
files={}
for f,old,new in ns['EDITS']:
    s=files.get(f) or open("/repo/"+f).read()
    assert s.count(old)==1,(f,s.count(old),old)
    files[f]=s.replace(old,new)
out=""
for f,s in files.items():
    o=open("/repo/"+f).read()
    out+=f"diff --git a/{f} b/{f}\n"+"".join(difflib.unified_diff(o.splitlines(1),s.splitlines(1),f"a/{f}",f"b/{f}"))
open(D+"/patch.diff","w").write(out)
json.dump(dict(property=ns['PROPERTY'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(D+"/meta.json","w"),indent=1)
if 'SCRIPT' in ns:
    open(D+"/demo.sh","w").write(ns['SCRIPT'])
    for n,t in ns.get('FILES',{}).items(): open(D+"/"+n,"w").write(t)
else:
    open(D+"/demo.rs","w").write(ns['DEMO'])
    c=ns['CRATE']
    open(D+"/demo.sh","w").write(f'''#!/bin/bash
# Runs demo.rs beside this script as an integration test of {c} (removed afterwards).
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 2
T=/repo/{c}/tests
[ -d $T ] || {{ mkdir $T; MADE=1; }}
trap 'rm -f /repo/{c}/tests/vp_demo.rs; [ -n "$MADE" ] && rmdir $T' EXIT
cp "$D/demo.rs" $T/vp_demo.rs
cargo test "${{SCOPE[@]}}" --test vp_demo
''')
os.chmod(D+"/demo.sh",0o755)
print(D, subprocess.run(["git","-C","/repo","apply","--check",D+"/patch.diff"]).returncode)
