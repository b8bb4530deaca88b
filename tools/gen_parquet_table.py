#!/usr/bin/env python3
"""Writes harness/src/parquet_table.rs (committed) from the frozen IDL: table of types and enum constants."""
import re
t=open('/verif/harness/idl/parquet.idl').read()
t=re.sub(r'//[^\n]*','',t)
types=[];consts=[]
for m in re.finditer(r'(struct|union|enum)\s+(\w+)\s*\{([^}]*)\}',t):
    types.append(m.group(2))
    if m.group(1)=='enum':
        for c in re.finditer(r'(\w+)\s*=\s*(-?\d+)',m.group(3)):
            consts.append((m.group(2),c.group(1)))
with open('/verif/harness/src/parquet_table.rs','w') as f:
    f.write("// generated by tools/gen_parquet_table.py\nuse crate::types::{ops_custom, Ops};\nuse compact_thrift_parquet::format as p;\n\npub fn table() -> Vec<Ops> {\n    vec![\n")
    for x in types: f.write(f'        ops_custom::<p::{x}>("{x}"),\n')
    f.write("    ]\n}\n\n/// (enum, constant name, number in the library)\npub fn constants() -> Vec<(&'static str, &'static str, i32)> {\n    vec![\n")
    for e,c in consts: f.write(f'        ("{e}", "{c}", p::{e}::{c}.0),\n')
    f.write("    ]\n}\n")
