"""rewrite DESIGN.md from tools/design_head.md and the contract registry"""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from belv import world
for f in sorted(glob.glob(HERE + '/belv/contracts/c[0-9]*.py')):
    importlib.import_module('belv.contracts.' + os.path.basename(f)[:-3])
sys.path.insert(0, HERE + '/tools')
from levels import LEVEL
out = [open(HERE + '/tools/design_head.md').read().rstrip(), '']
rows = []
for m in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'], d.get('caught_by', d['property'])))
out += ['| change | property | breaks | caught by check |', '|---|---|---|---|'] + rows
out += ['', '## 8. Contracts', '']
seen = set()
for p in sorted(world.REGISTRY):
    lv = LEVEL.get(p)
    out += ['### %s (%s: %s)' % (p, lv[0], lv[1]), '', '| contract | modes | functions | bound (bsym) |', '|---|---|---|---|']
    for c in world.REGISTRY[p]:
        fs = ', '.join(c.funcs)
        out.append('| %s | %s | %s | %s |' % (c.name, ' '.join(c.modes), fs, c.bound))
    asm = sorted({a for c in world.REGISTRY[p] for a in c.assumes})
    if asm:
        out += ['', 'Assumed: ' + '; '.join(asm) + '.']
    out.append('')
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
