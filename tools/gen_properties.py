#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))
M='cinereus/src/matching.rs'; C='cinereus/src/chawathe.rs'; T='cinereus/src/tree.rs'; L='cinereus/src/lib.rs'
D='hotmeal/src/diff.rs'; DOM='hotmeal/src/dom.rs'; ST='hotmeal/src/stem.rs'; SV='hotmeal-server/src/lib.rs'
exec(open(os.path.join(os.path.dirname(__file__), 'properties_src.py')).read())
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
