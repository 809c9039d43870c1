"""Which programs each property explores."""
import os
from dsl import *
import zoo, prod, style
def cross(pid, keep=()):
    """a fixed slice through every product: the products vary what their own property is about, the general properties hold for them too"""
    d = 10 if prod.THOROUGH else 24
    gs = (prod.containers, prod.setmaps, prod.enums, prod.magics, prod.asserts, prod.controls, prod.updates, prod.sizes, prod.seeks, prod.inherits, prod.domains)
    return [x for g in gs for x in g() if x and prod.hash_('x' + pid, x.name) % d == 0]
SEL = {
 'C01': lambda: zoo.fams(*zoo.ALL) + cross('C01'),
 'C05': lambda: zoo.fams(*zoo.ALL) + cross('C05'),
 'C06': lambda: zoo.fams(*zoo.ALL) + cross('C06'),
 'C07': lambda: zoo.fams(*zoo.ALL) + cross('C07'),
 'C08': lambda: zoo.fams('cont') + prod.containers() + prod.setmaps(),
 'C10': lambda: zoo.fams('enum') + prod.enums(),
 'C11': lambda: zoo.fams('magic') + prod.magics() + prod.asserts(),
 'C12': lambda: zoo.fams('ctrl', 'long') + prod.controls(),
 'C13': lambda: zoo.fams(*zoo.ALL) + prod.updates(),
 'C15': lambda: [p for p in zoo.fams(*zoo.ALL) if p and p.size] + prod.sizes(),
 'C14': lambda: zoo.fams(*zoo.ALL) + cross('C14'),
 'C16': lambda: zoo.fams(*zoo.ALL) + prod.seeks(),
 'C21': lambda: zoo.fams('dom') + prod.domains(),
 'C17': lambda: (zoo.fams(*zoo.ALL) if prod.THOROUGH else []) + prod.hostile(),
 'C23': lambda: zoo.fams(*zoo.ALL) + cross('C23'),
 'C19': lambda: zoo.fams('ctx') + prod.inherits() + [e for e in zoo.fams('enum') + prod.enums() if e and 'id_endian' in e.kw and (prod.THOROUGH or 'u16' in e.name or 'ide' in e.name)],
}
def chunk(ps):
    """thorough runs of many programs are built and run in parts, VERIF_CHUNK=i/n"""
    i, n = map(int, os.environ.get('VERIF_CHUNK', '0/1').split('/'))
    return [x for x in ps if x][i::n]
def programs(pid):
    if pid == 'C22': return c22()
    return [x for x in SEL[pid]() if x] if pid in SEL else []
def c22():
    ps = [x for x in zoo.fams(*zoo.ALL) + (cross('C22') if prod.THOROUGH else []) if x and x.main and x.name not in ('BF_1', 'BM_3', 'BM_4') and not (x.kw.get('ctx') and not x.kw.get('ctx_default'))]
    return ps if prod.THOROUGH else [x for x in ps if prod.hash_('z22', x.name) % 2 == 0]
def generate(pid):
    if pid.startswith('C18:'):
        have = set(pid[4:].split(','))
        def pick(x): # quick: byte-level programs, which every combination can express, before the others
            f = feats(x)
            return prod.THOROUGH or prod.hash_('z18', x.name) % (8 if 'bits' in f else 3) == 0 or x.name.startswith('G_') and 'bits' not in f
        return emit([x for x in [y for y in zoo.fams(*zoo.ALL) if y and pick(y)] + prod.features() if x and feats(x) <= have], sizes='both')
    p = chunk(programs(pid))
    if pid == 'C22': return style.emit_styled(p, 2 if prod.THOROUGH else 1, 'wire', PRELUDE)
    return emit(p, sizes=pid == 'C15') if p else '// no generated programs\n'
