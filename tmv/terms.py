"""z3 vocabulary: the value domain of metaprograms."""
import z3

_T = z3.Datatype('T')
_TL = z3.Datatype('TL')
_IL = z3.Datatype('IL')
_IL.declare('inil')
_IL.declare('icons', ('ihd', z3.IntSort()), ('itl', _IL))
IL = _IL.create()

_T.declare('Acc', ('a_res', _T), ('a_rem', _T), ('a_pos', _T))      # accept<result, remaining, position>
_T.declare('Rej', ('r_msg', _T), ('r_pos', _T))                     # reject<message, position>
_T.declare('Pos', ('p_line', z3.IntSort()), ('p_col', z3.IntSort()), ('p_prev', z3.IntSort()))
_T.declare('ICt', ('ic_kind', z3.IntSort()), ('ic_val', z3.IntSort()))  # integral constant
_T.declare('Str', ('s_chars', IL))                                  # metaparse string
_T.declare('SeqT', ('sq_elems', _TL))                               # MPL sequence
_T.declare('Cls', ('c_id', z3.IntSort()), ('c_args', _TL))          # any other class
_T.declare('Bad', ('b_code', z3.IntSort()))                         # ill-formed program
_T.declare('User', ('u_id', z3.IntSort()))                          # opaque user class
_TL.declare('tnil')
_TL.declare('tcons', ('thd', _T), ('ttl', _TL))
T, TL = z3.CreateDatatypes(_T, _TL)
Int = z3.IntSort()
Bool = z3.BoolSort()

app1 = z3.Function('app1', T, T, T)
app2 = z3.Function('app2', T, T, T, T)
app3 = z3.Function('app3', T, T, T, T, T)
appn = {1: app1, 2: app2, 3: app3}
snoc_f = z3.Function('snoc', TL, T, TL)
isnoc_f = z3.Function('isnoc', IL, Int, IL)
tlen = z3.Function('tlen', TL, Int)
ilen = z3.Function('ilen', IL, Int)
inth = z3.Function('inth', IL, Int, Int)

_keep = []
def keep(t):
    _keep.append(t)
    return t

_ids = {}
def cid(name):
    if name not in _ids:
        _ids[name] = len(_ids) + 1
    return _ids[name]
def cname(i):
    for k, v in _ids.items():
        if v == i:
            return k
    return '?%d' % i

KINDS = {'int': 1, 'char': 2, 'bool': 3, 'long': 4, 'unsigned long': 5, 'unsigned int': 6, 'short': 7,
         'unsigned short': 8, 'signed char': 9, 'unsigned char': 10, 'long long': 11, 'unsigned long long': 12,
         'wchar_t': 13}
KNAMES = {v: k for k, v in KINDS.items()}

def tlist(xs, tail=None):
    r = tail if tail is not None else TL.tnil
    for x in reversed(xs):
        r = TL.tcons(x, r)
    return r
def ilist(xs, tail=None):
    r = tail if tail is not None else IL.inil
    for x in reversed(xs):
        r = IL.icons(x, r)
    return r

def I(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def ic(kind, v):
    return T.ICt(z3.IntVal(KINDS[kind]), I(v))
def cls(name, *args):
    return T.Cls(z3.IntVal(cid(name)), tlist(list(args)))

def is_cons_app(t, name):
    return z3.is_app(t) and t.decl().name() == name

# projections that reduce on constructors and through ite when cheap
def proj(ctor, acc, idx, t):
    if z3.is_app(t):
        n = t.decl().name()
        if n == ctor:
            return t.arg(idx)
    return acc(t)
def a_res(t): return proj('Acc', T.a_res, 0, t)
def a_rem(t): return proj('Acc', T.a_rem, 1, t)
def a_pos(t): return proj('Acc', T.a_pos, 2, t)
def r_msg(t): return proj('Rej', T.r_msg, 0, t)
def r_pos(t): return proj('Rej', T.r_pos, 1, t)
def p_line(t): return proj('Pos', T.p_line, 0, t)
def p_col(t): return proj('Pos', T.p_col, 1, t)
def p_prev(t): return proj('Pos', T.p_prev, 2, t)
def ic_val(t): return proj('ICt', T.ic_val, 1, t)
def s_chars(t): return proj('Str', T.s_chars, 0, t)
def sq_elems(t): return proj('SeqT', T.sq_elems, 0, t)
def ihd(t): return proj('icons', IL.ihd, 0, t)
def itl(t): return proj('icons', IL.itl, 1, t)
def thd(t): return proj('tcons', TL.thd, 0, t)
def ttl(t): return proj('tcons', TL.ttl, 1, t)

CTORS = {'Acc', 'Rej', 'Pos', 'ICt', 'Str', 'SeqT', 'Cls', 'Bad', 'User'}
def is_(ctor, t):
    if z3.is_app(t) and t.decl().name() in CTORS:
        return z3.BoolVal(t.decl().name() == ctor)
    return getattr(T, 'is_' + ctor)(t)
def is_tnil(t):
    if z3.is_app(t) and t.decl().name() in ('tnil', 'tcons'):
        return z3.BoolVal(t.decl().name() == 'tnil')
    return TL.is_tnil(t)
def is_inil(t):
    if z3.is_app(t) and t.decl().name() in ('inil', 'icons'):
        return z3.BoolVal(t.decl().name() == 'inil')
    return IL.is_inil(t)
def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)
def and_(*cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if any(z3.is_false(c) for c in cs): return z3.BoolVal(False)
    if not cs: return z3.BoolVal(True)
    return cs[0] if len(cs) == 1 else z3.And(*cs)
def or_(*cs):
    cs = [c for c in cs if not z3.is_false(c)]
    if any(z3.is_true(c) for c in cs): return z3.BoolVal(True)
    if not cs: return z3.BoolVal(False)
    return cs[0] if len(cs) == 1 else z3.Or(*cs)
def not_(c):
    if z3.is_true(c): return z3.BoolVal(False)
    if z3.is_false(c): return z3.BoolVal(True)
    return z3.Not(c)
def snoc(l, x):
    if is_cons_app(l, 'tnil'): return TL.tcons(x, TL.tnil)
    if is_cons_app(l, 'tcons'): return TL.tcons(l.arg(0), snoc(l.arg(1), x))
    return snoc_f(l, x)
def isnoc(l, x):
    if is_cons_app(l, 'inil'): return IL.icons(I(x), IL.inil)
    if is_cons_app(l, 'icons'): return IL.icons(l.arg(0), isnoc(l.arg(1), x))
    return isnoc_f(l, I(x))
