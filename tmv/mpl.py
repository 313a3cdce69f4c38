"""Trusted semantics of the Boost.MPL entities metaparse uses.

TYPES  : class templates that denote a built-in value as soon as they are named
META   : metafunctions, evaluated when a member is requested.  A handler gets
         (engine, Inst) and returns the value of ::type, or None to fall back to
         interpreting Boost's own source."""
import z3
from terms import *
from engine import (ArrV, Inst, Rec, Sym, Prim, App, CApp, Lazy, MSeq, MMap, MIter, IntV, TmplV, PackV, Seg, V,
                    IllFormed, Unsupported, NS)

M = 'boost::mpl::'
TYPES = {}
META = {}

class Lam(V):
    """a placeholder expression turned into a metafunction class"""
    __slots__ = ('expr',)
    def __init__(self, expr): self.expr = expr
    def mkkey(self): return ('LAM', self.expr.key())
class LamTmpl(V):
    __slots__ = ('lam',)
    def __init__(self, lam): self.lam = lam
    def mkkey(self): return ('LT', self.lam.key())
class LamApp(V):
    __slots__ = ('lam', 'args')
    def __init__(self, lam, args): self.lam, self.args = lam, tuple(args)
    def mkkey(self): return ('LA', self.lam.key(), tuple(a.key() for a in self.args))

def meta(*names):
    def d(f):
        for n in names: META[M + n] = f
        return f
    return d

def flat(e, v):
    out = []
    for a in v.args:
        if isinstance(a, PackV): out.extend(a.items)
        else: out.append(a)
    return [a for a in out if not (isinstance(a, Rec) and e.is_na(a))]

def _seq(fl):
    def h(e, v):
        return MSeq(fl, flat(e, v))
    return h
for fl, n in (('vector', 50), ('list', 50), ('deque', 50)):
    TYPES[M + fl] = _seq(fl)
    for i in range(n + 1): TYPES[M + fl + str(i)] = _seq(fl)
def _map(e, v):
    ps = []
    for p in flat(e, v):
        ps.append((e.mtype(p, 'first'), e.mtype(p, 'second')))
    return MMap(ps)
TYPES[M + 'map'] = _map
for i in range(21): TYPES[M + 'map%d' % i] = _map

def arg(v, i): return v.args[i]

class Native:
    """capability view of a sequence argument"""
    pass

def resolve(e, s, op=None):
    """classify: MSeq | ('str', term) | ('seq', term) | None"""
    if isinstance(s, MSeq): return s
    if isinstance(s, Sym):
        if e.decide(is_('Str', s.t)): return ('str', s.t) if op is not None and 'mpl:' + op not in e.disabled else None
        if e.decide(is_('SeqT', s.t)): return ('seq', s.t)
        return None
    return None

def str_op(e, op, s, *args):
    """a sequence operation on a metaparse string: by the contract of the operation"""
    import contracts, spec
    con = contracts.CON['mpl:' + op]
    c = spec.SymCtx(e)
    if con.req is not None:
        q = con.req(c, s, *args)
        if q is not True and not e.entails(q):
            if e.decide(q): pass
            else: return None      # outside the contract: the real code decides
    e.used_contracts.add(con.name)
    t = con.use_spec(c, s, *args)
    if is_cons_app(t, 'ICt'):
        k = KNAMES[t.arg(0).as_long()]
        return {'int': e.int_, 'char': e.char_, 'bool': e.bool_}[k](t.arg(1))
    return Sym(t)

@meta('c_str')
def _c_str(e, v):
    s = arg(v, 0)
    if 'str:c_str' in e.disabled or not isinstance(s, Sym) or not e.decide(is_('Str', s.t)): return None
    import fns
    e.used_contracts.add('str:c_str')
    il = s_chars(s.t); items = []
    while is_cons_app(il, 'icons'): items.append(IntV(il.arg(0), 'char')); il = il.arg(1)
    if not is_cons_app(il, 'inil'): items.append(Seg(il, 'int', 'char'))
    return fns.LitCls(ArrV(items + [IntV(0, 'char')]))

@meta('empty')
def _empty(e, v):
    s = resolve(e, arg(v, 0), 'empty')
    if s is None: return None
    if isinstance(s, MSeq):
        if any(isinstance(x, Seg) for x in s.items):
            for x in s.items:
                if not isinstance(x, Seg): return e.bool_(0)
            if len(s.items) == 1: return e.bool_(e.seg_isnil(s.items[0]))
            raise Unsupported('empty on symbolic sequence')
        return e.bool_(int(not s.items))
    if s[0] == 'str': return str_op(e, 'empty', s[1])
    return e.bool_(is_tnil(sq_elems(s[1])))

@meta('size')
def _size(e, v):
    s = resolve(e, arg(v, 0), 'size')
    if s is None: return None
    if isinstance(s, MSeq):
        if any(isinstance(x, Seg) for x in s.items): raise Unsupported('size of symbolic sequence')
        return e.mk(M + 'long_', IntV(len(s.items), 'long'))
    if s[0] == 'str': return str_op(e, 'size', s[1])
    l = sq_elems(s[1]); n = 0
    while is_cons_app(l, 'tcons'): n += 1; l = l.arg(1)
    if not is_cons_app(l, 'tnil'): n = n + e.seg_len(Seg(l, 'type'))
    return e.mk(M + 'long_', IntV(n, 'long'))

def split_front(e, s):
    """head, tail of an MSeq"""
    items = list(s.items)
    while items and isinstance(items[0], Seg):
        if e.decide(e.seg_isnil(items[0])): items = items[1:]
        else: items = [e.seg_hd(items[0]), e.seg_tl(items[0])] + items[1:]
    if not items: e.ill('front/pop_front of an empty sequence')
    return items[0], MSeq(s.flavour, items[1:])

def settled(e, s):
    """the sequence with the conditionals that the path decides resolved"""
    if is_cons_app(s[1], 'SeqT') and is_cons_app(s[1].arg(0), 'tcons'): return s
    import verify
    return (s[0], verify.norm(e, s[1]))
@meta('front')
def _front(e, v):
    s = resolve(e, arg(v, 0), 'front')
    if s is None: return None
    if isinstance(s, MSeq): return split_front(e, s)[0]
    if s[0] == 'str': return str_op(e, 'front', s[1])
    s = settled(e, s)
    if e.decide(is_tnil(sq_elems(s[1]))): e.ill('front of an empty sequence')
    return Sym(thd(sq_elems(s[1])))

@meta('pop_front')
def _pop_front(e, v):
    s = resolve(e, arg(v, 0), 'pop_front')
    if s is None: return None
    if isinstance(s, MSeq): return split_front(e, s)[1]
    if s[0] == 'str': return str_op(e, 'pop_front', s[1])
    if e.decide(is_tnil(sq_elems(s[1]))): e.ill('pop_front of an empty sequence')
    return Sym(T.SeqT(ttl(sq_elems(s[1]))))

@meta('back')
def _back(e, v):
    s = resolve(e, arg(v, 0), 'back')
    if isinstance(s, MSeq):
        if not s.items: e.ill('back of an empty sequence')
        if isinstance(s.items[-1], Seg): raise Unsupported('back of a symbolic sequence')
        return s.items[-1]
    if s is None: return None
    if s[0] == 'str': return str_op(e, 'back', s[1])
    s = settled(e, s)
    l = sq_elems(s[1])
    if is_cons_app(l, 'snoc'): return Sym(l.arg(1))
    while is_cons_app(l, 'tcons') and not is_cons_app(l.arg(1), 'tnil'): l = l.arg(1)
    if is_cons_app(l, 'tcons'): return Sym(l.arg(0))
    raise Unsupported('back of a symbolic sequence')

@meta('pop_back')
def _pop_back(e, v):
    s = resolve(e, arg(v, 0), 'pop_back')
    if isinstance(s, MSeq):
        if not s.items: e.ill('pop_back of an empty sequence')
        if isinstance(s.items[-1], Seg): raise Unsupported('pop_back of a symbolic sequence')
        return MSeq(s.flavour, s.items[:-1])
    if s is None: return None
    if s[0] == 'str': return str_op(e, 'pop_back', s[1])
    l = sq_elems(s[1])
    if is_cons_app(l, 'snoc'): return Sym(T.SeqT(l.arg(0)))
    raise Unsupported('pop_back of a symbolic sequence')

@meta('push_back')
def _push_back(e, v):
    s = resolve(e, arg(v, 0), 'push_back')
    x = arg(v, 1)
    if s is None: return None
    if isinstance(s, MSeq):
        if s.flavour == 'list': return None if False else e.ill('push_back on mpl::list')
        return MSeq(s.flavour, s.items + (x,))
    if s[0] == 'str': return str_op(e, 'push_back', s[1], I(e.mval(e.mtype(x, 'type'), 'value').v))
    return Sym(T.SeqT(snoc(sq_elems(s[1]), e.reify(x))))

@meta('push_front')
def _push_front(e, v):
    s = resolve(e, arg(v, 0), 'push_front')
    x = arg(v, 1)
    if s is None: return None
    if isinstance(s, MSeq): return MSeq(s.flavour, (x,) + s.items)
    if s[0] == 'str': return str_op(e, 'push_front', s[1], I(e.mval(e.mtype(x, 'type'), 'value').v))
    return Sym(T.SeqT(TL.tcons(e.reify(x), sq_elems(s[1]))))

@meta('clear')
def _clear(e, v):
    s = resolve(e, arg(v, 0), 'clear')
    if isinstance(s, MSeq): return MSeq(s.flavour, ())
    if s is None: return None
    if s[0] == 'str': return str_op(e, 'clear', s[1])
    return Sym(T.SeqT(TL.tnil))

def nth(e, s, n):
    if isinstance(s, MSeq):
        if n < 0: e.ill('at: negative index')
        for _ in range(n):
            _, s = split_front(e, s)
        return split_front(e, s)[0]
    l = sq_elems(s[1])
    if n < 0: e.ill('at: negative index')
    for _ in range(n):
        if e.decide(is_tnil(l)): e.ill('at: index out of range')
        l = ttl(l)
    if e.decide(is_tnil(l)): e.ill('at: index out of range')
    return Sym(thd(l))

@meta('at_c')
def _at_c(e, v):
    s = arg(v, 0); n = arg(v, 1)
    r = resolve(e, s, 'at_c')
    if r is None: return None
    if isinstance(r, tuple) and r[0] == 'str': return str_op(e, 'at_c', r[1], I(n.v))
    if not n.concrete(): raise Unsupported('at_c with symbolic index')
    return nth(e, r, n.v)

@meta('at')
def _at(e, v):
    s = arg(v, 0)
    if isinstance(s, MMap): return map_at(e, s, arg(v, 1))
    r = resolve(e, s, 'at')
    if r is None: return None
    n = e.mval(arg(v, 1), 'value')
    if isinstance(r, tuple) and r[0] == 'str': return str_op(e, 'at', r[1], I(n.v))
    if not n.concrete(): raise Unsupported('at with symbolic index')
    return nth(e, r, n.v)

def keq(e, a, b):
    r = e.eq(a, b)
    return e.decide(r)
def map_at(e, m, k):
    for a, b in reversed(m.pairs):
        if keq(e, a, k): return b
    return e.named_rec(M + 'void_')
@meta('has_key')
def _has_key(e, v):
    if not isinstance(arg(v, 0), MMap): return None
    for a, b in arg(v, 0).pairs:
        if keq(e, a, arg(v, 1)): return e.bool_(1)
    return e.bool_(0)
@meta('insert')
def _insert(e, v):
    m = arg(v, 0)
    if not isinstance(m, MMap): return None
    p = arg(v, 1)
    k, x = e.mtype(p, 'first'), e.mtype(p, 'second')
    return MMap([(a, b) for a, b in m.pairs if not keq(e, a, k)] + [(k, x)])

# ---- iterators on built-in sequences
@meta('begin')
def _begin(e, v):
    s = arg(v, 0)
    if isinstance(s, MSeq): return MIter(s, 0)
    return None
@meta('end')
def _end(e, v):
    s = arg(v, 0)
    if isinstance(s, MSeq): return MIter(s, len(s.items))
    return None
@meta('deref')
def _deref(e, v):
    s = arg(v, 0)
    if isinstance(s, MIter):
        if s.n >= len(s.seq.items): e.ill('deref of end')
        x = s.seq.items[s.n]
        if isinstance(x, Seg): raise Unsupported('deref into symbolic segment')
        return x
    return None
@meta('next')
def _next(e, v):
    s = arg(v, 0)
    if isinstance(s, MIter): return MIter(s.seq, s.n + 1)
    return None
@meta('prior')
def _prior(e, v):
    s = arg(v, 0)
    if isinstance(s, MIter): return MIter(s.seq, s.n - 1)
    return None

# ---- lambda
def placeholder(e, v):
    """index of an mpl::arg<N>, -1 for mpl::_, or None"""
    if isinstance(v, Inst) and e.tname(v.tid) == M + 'arg': return v.args[0].v
    return None
def has_ph(e, v):
    if placeholder(e, v) is not None: return True
    if isinstance(v, Inst) and v.parent is None: return any(has_ph(e, a) for a in v.args)
    if isinstance(v, PackV): return any(has_ph(e, a) for a in v.items)
    if isinstance(v, MSeq): return any(has_ph(e, a) for a in v.items)
    return False
def subst(e, v, args, cnt, top=False):
    n = placeholder(e, v)
    if n is not None:
        if n == -1:
            n = cnt[0] = cnt[0] + 1
        if n > len(args): e.ill('lambda: too few arguments')
        return args[n - 1]
    if not has_ph(e, v): return v
    if isinstance(v, MSeq):
        return MSeq(v.flavour, [subst(e, a, args, cnt) for a in v.items])
    na = []
    for a in v.args:
        if isinstance(a, PackV): na.extend(subst(e, x, args, cnt) for x in a.items)
        else: na.append(subst(e, a, args, cnt))
    r = e.inst(TmplV(v.tid, v.parent), na)
    f = e.find(r, 'type')
    if f is not None and f[0] == 'type': return f[1]
    return r

@meta('lambda')
def _lambda(e, v):
    f = arg(v, 0)
    return mklam(e, f)
def mklam(e, f):
    if isinstance(f, (Inst, MSeq)) and (placeholder(e, f) is not None or has_ph(e, f)):
        return Lam(f)
    return f
def lam_find(e, v, name):
    if isinstance(v, Lam):
        if name == 'apply': return ('tmpl', LamTmpl(v))
        if name == 'type': return ('type', v)
        return None
    if isinstance(v, LamApp):
        val = e.memo_builtin(v, lambda: subst(e, v.lam.expr, v.args, [0], True))
        if name == 'type': return ('type', val)
        return e.find(val, name)
    return None

def apply_f(e, f, args):
    f = mklam(e, f)
    return e.inst(e.mtmpl(f, 'apply'), list(args))
def _apply(e, v):
    xs = flat(e, v)
    return e.mtype(apply_f(e, xs[0], xs[1:]), 'type')
META[M + 'apply'] = _apply
for i in range(6):
    META[M + 'apply%d' % i] = _apply
    def _aw(e, v):
        xs = flat(e, v)
        return e.mtype(e.inst(e.mtmpl(xs[0], 'apply'), xs[1:]), 'type')
    META[M + 'apply_wrap%d' % i] = _aw

def fold_items(e, items, state, op, rev=False):
    op = mklam(e, op)
    st = state
    for x in items:
        if isinstance(x, Seg): raise Unsupported('fold over a symbolic segment')
        def step(st=st, x=x):
            return e.mtype(e.inst(e.mtmpl(op, 'apply'), [st, x]), 'type')
        st = e.merge(step)
    return st
def _fold(e, v):
    s = arg(v, 0)
    if isinstance(s, Sym):
        r = resolve(e, s)
        if r is None: return None
        if r[0] == 'seq':
            items = []; l = sq_elems(r[1])
            while is_cons_app(l, 'tcons'): items.append(Sym(l.arg(0))); l = l.arg(1)
            if not is_cons_app(l, 'tnil'): raise Unsupported('fold over a symbolic sequence')
            return fold_items(e, items, arg(v, 1), arg(v, 2))
        raise Unsupported('fold over a symbolic string')
    if not isinstance(s, MSeq): return None
    return fold_items(e, s.items, arg(v, 1), arg(v, 2))
META[M + 'fold'] = META[M + 'accumulate'] = _fold
def _rfold(e, v):
    s = arg(v, 0)
    if not isinstance(s, MSeq): return None
    if len(flat(e, v)) > 3: return None
    return fold_items(e, reversed(s.items), arg(v, 1), arg(v, 2))
META[M + 'reverse_fold'] = _rfold

# ---- tags and traits
@meta('sequence_tag')
def _seqtag(e, v):
    x = arg(v, 0)
    r = e.find(x, 'tag') if not isinstance(x, Prim) else None
    if r is not None and r[0] == 'type': return r[1]
    return e.named_rec(M + 'non_sequence_tag')
@meta('tag')
def _tag(e, v):
    x = arg(v, 0)
    r = e.find(x, 'tag') if not isinstance(x, Prim) else None
    if r is not None and r[0] == 'type': return r[1]
    return e.named_rec(M + 'void_') if len(v.args) < 2 or e.is_na(v.args[1]) else v.args[1]

def has_member(name):
    def h(e, v):
        x = v.args[0]
        while isinstance(x, Prim) and x.s == 'qual': x = x.sub
        if isinstance(x, Prim): return e.bool_(0)
        r = e.find(x, name)
        return e.bool_(int(r is not None and r[0] in ('type',)))
    return h
def is_has_xxx(q):
    n = q.rsplit('::', 1)[-1]
    if n.startswith('has_') and n not in ('has_key', 'has_push_back_impl'): return n[4:]
    return None

_cache = {}
def meta_for(q):
    h = META.get(q)
    if h is not None: return h
    n = is_has_xxx(q)
    if n and n not in ('complement', 'xxx'):
        if q not in _cache: _cache[q] = has_member(n)
        return _cache[q]
    return None
