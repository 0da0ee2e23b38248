"""Single source of the properties and of the checks that decide them.
properties.jsonl and MANIFEST.json are generated from here by gen.py."""
PROPS = []
CHECKS = {}

def P(id, title, statement, text, why, files, mech, over=('inputs',), src=None, rule='', assume='', note='', tech='property-based testing', na=None, state=(), observe=(), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, src=src, rule=rule, assume=assume, note=note, tech=tech, na=na, state=state, observe=observe))
    if src: CHECKS[id] = dict(src=src, rule=rule, assume=assume, **kw)

import props  # noqa: fills PROPS / CHECKS
