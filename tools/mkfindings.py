#!/usr/bin/env python3
# Regenerates /verif/known_findings.json; commit hashes are looked up in /repo by subject.
import json,subprocess
log={l.split(" ",1)[1]:l.split(" ",1)[0] for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()}
FIXED=[ # property, commit subject, what failed
("C01","fix: drop the metadata of removed nodes","a node added after a removal inherited the removed node's metadata"),
("C01","fix: canonicalize_nodes permutes metadata and reports every moved node","canonicalize_nodes left metadata at the old index and did not report nodes displaced by a swap"),
("C01","fix: extract_hugr of the module root sets the documented entrypoint","extract_hugr(module root) kept the old entrypoint"),
("C01","fix: shrinking the ports of a node with multiple links per port","set_num_ports/add_ports on a node whose dropped port had several links corrupted the graph (queries panic)"),
("C07","fix: fold checked integer division to a value of its output sum type","idiv/imod/idivmod_checked folded to a bare value instead of the success variant of the output sum"),
("C07","fix: remainder when folding signed division of the least 64-bit integer","idivmod_s/imod_s of -2^63 folded to a wrong remainder or crashed"),
("C07","fix: integer narrowing to 64 bits and absolute value of the least integer when folding","inarrow_u/s<64,64> crashed or folded to an error; iabs of the least integer below 64 bits crashed"),
("C07","fix: crash when folding integer shifts and rotations by the width or more","ishl/ishr by 64 or more and irotl/irotr<64> by a multiple of 64 crashed"),
("C07","fix: do not crash when folding list and float operations on opaque constants","folding list or float operations on a CustomSerialized constant crashed"),
("C07","fix: order of signed zeros when folding float maximum and minimum","fmax(+0,-0) folded to -0"),
("C07","fix: do not fold boolean equality from one known input","Eq(false, unknown) folded to false"),
("C07","fix: do not fold tuple construction from some of the elements","MakeTuple with some known inputs folded to a shorter tuple"),
("C07","fix: fold integer powers with exponents of 2^32 and more","ipow with an exponent of 2^32 or more folded to a wrong power"),
("C07","fix: fold truncation of out-of-range floats to an error as for smaller widths","trunc_u/s<64> of an out-of-range float, and trunc_u of negatives, folded to a saturated value (smaller widths and compiled code give the error)"),
("C17","fix: visibility of symbols that shadow another symbol","SymbolTable::is_visible denied a visible symbol that shadows one of an outer scope"),
]
OPEN=[ # property, key, what
("C07","fold-panic:is_to_u:unrepresentable","folding is_to_u of a negative integer crashes (an existing test requires the crash)"),
("C07","fold-panic:iu_to_s:unrepresentable","folding iu_to_s of an integer above the signed range crashes (an existing test requires the crash)"),
("C07","fold-type:collections.list.insert:1:[Bool]+[]->[Bool]+[Unit]","successful list insert folds to a sum type with an empty success row instead of [Unit] (an existing test requires it)"),
("C07","fold-type:collections.list.length:0:usize->List(Bool)","list length folds the length onto output port 0, which carries the list (an existing test requires it)"),
]
try:
    exec(open(__file__.replace("mkfindings","findings_more")).read())
except FileNotFoundError: pass
out=[]
for p,s,w in FIXED:
    assert s in log,s
    out.append(dict(property=p,status="fixed",commit=log[s],what=w,note=f"fixed: property={p} {log[s]} {w}"))
for p,k,w in OPEN:
    out.append(dict(property=p,status="open",key=k,what=w))
json.dump({"findings":out},open("/verif/known_findings.json","w"),indent=1); print(len(out))
