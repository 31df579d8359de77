#!/usr/bin/env python3
"""Regenerates the registry of checks from the files present."""
import re, pathlib
d = pathlib.Path('/verif/mc/src/checks')
ids = sorted(p.stem for p in d.glob('p[0-9]*.rs'))
p = d / 'mod.rs'
s = p.read_text()
i = s.index('registry! {')
body = ''.join(f'    "{x.upper()}" => {x},\n' for x in ids)
head = s[:i].replace('    "P29" => p29,\n', '')
p.write_text(head + 'registry! {\n' + body + '}\n')
