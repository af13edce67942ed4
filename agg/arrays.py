"""Array facts: which memory block an address belongs to, how it is allocated and initialised."""
from ir import *
from lib import *
from cursors import *

def heap_of(f, e):
    """('heap', id) behind an array expression: direct, or stored once through a local / reference slot"""
    if e[0] == 'heap': return e
    if e[0] == 'ld':
        vals = set()
        for i in f.stores():
            if f.expr(i.ops[1]) == e[1]: vals.add(f.expr(i.ops[0]))
        vals.discard(('null',))
        hs = {v for v in vals if v[0] == 'heap'}
        if len(vals) == 1 and hs: return hs.pop()
    return None

def heap_zeroed(f, h):
    """the allocation is value-initialised: memset 0 of the block right after it, or calloc"""
    i = f.vals[h[1]]
    if i.callee == 'calloc': return True
    for u in f.users.get(h[1], []):
        if u.op == 'call' and (u.callee or '').startswith('llvm.memset') and u.ops[0] == h[1] and u.ops[1] in (['c', 0], ('c', 0)):
            if u.blk == i.blk or f.bdom(i.blk, u.blk):
                # same size
                if f.expr(u.ops[2]) == f.expr(i.ops[0]): return True
    return False

_zf = {}
def zero_fields(P):
    """(struct, field index) pairs whose storage every allocating constructor value-initialises"""
    if id(P) in _zf: return _zf[id(P)]
    ok = {}; 
    for f in P.fns.values():
        if '::' not in f.dem: continue
        q = f.dem.split('(')[0].split('::')
        if len(q) < 2 or q[-1] != q[-2]: continue
        for i in f.stores():
            a = f.expr(i.ops[1])
            if a[0] == 'fld' and a[1] == ('arg', 0):
                v = f.expr(i.ops[0])
                if v[0] == 'heap':
                    k = (a[2], a[3])
                    ok[k] = ok.get(k, True) and heap_zeroed(f, v)
    _zf[id(P)] = {k for k, v in ok.items() if v}
    return _zf[id(P)]

def esize(ty):
    return {'i32': 4, 'double': 8, 'i64': 8, 'i8': 1, 'ptr': 8, 'float': 4, 'i1': 1}.get(ty)

def elem_ty(i):
    return i.sty if i.op == 'getelementptr' else None

def alloc_count(f, h, esz=None):
    """number of elements of a heap block, as an expression (element size esz for malloc)"""
    i = f.vals[h[1]]
    if i.callee == 'calloc': return f.expr(i.ops[0])
    b = i.ops[1] if i.callee == 'realloc' else i.ops[0]
    return bytes_count(f, b, esz)

def bytes_count(f, b, esz=None):
    """byte count operand -> element count"""
    e = f.expr(b)
    if e[0] == 'sel' and e[2] == ('c', -1): e = e[3]
    if e[0] == 'xv' and e[1][0] == 'call' and 'with.overflow' in (f.vals[e[1][2]].callee or ''):
        c = f.vals[e[1][2]]
        x, y = f.expr(c.ops[0]), f.expr(c.ops[1])
        if y[0] == 'c' and (esz is None or y[1] == esz): return x
        if y[0] == 'c': e = scale(x, y[1])
        else: return None
    if esz:
        k, parts = lin_parts(e)
        if k % esz == 0 and all(c % esz == 0 for c in parts.values()):
            return mk_lin(k // esz, {a: c // esz for a, c in parts.items()})
    return None
