"""Specification language.  A spec function is ordinary Python over a context c
and is executed in two modes:
  * SymCtx  - path-wise symbolic evaluation inside the verifier (c.ite forks the
              path, recursive spec functions stay uninterpreted and are unfolded
              once at the contract being verified: fixpoint induction);
  * ConCtx  - concrete evaluation, used to compute the expected outcome of the
              replayed test programs."""
import z3
from terms import *
from engine import (Inst, Rec, Sym, Prim, App, CApp, Lazy, MSeq, IntV, TmplV, SymTmpl, PackV, Seg, V, IllFormed,
                    Unsupported, PathAbort, NS)

class SpecFn(V):
    """specification-level metafunction class (parser or operation)"""
    __slots__ = ('name', 'params', 'fn')
    def __init__(self, name, params, fn): self.name, self.params, self.fn = name, tuple(params), fn
    def mkkey(self): return ('SF', self.name, tuple(p.get_id() for p in self.params))
    def token(self): return cls('spec:' + self.name, *self.params)

class RecFn:
    """recursive specification function"""
    def __init__(self, name, sorts, unfold, facts=None, tokens=()):
        self.name, self.sorts, self.unfold, self.facts = name, sorts, unfold, facts
        self.tokens = tokens            # {arg index: ('parser'|'op', state_index or None)}
        self.uf = z3.Function('spec_' + name, *(list(sorts) + [T]))
        RECS[name] = self
RECS = {}

def less(a, b):
    la, ca, pa = p_line(a), p_col(a), p_prev(a)
    lb, cb, pb = p_line(b), p_col(b), p_prev(b)
    return z3.Or(la < lb, z3.And(la == lb, z3.Or(ca < cb, z3.And(ca == cb, pa < pb))))
def poseq(a, b):
    return z3.And(p_line(a) == p_line(b), p_col(a) == p_col(b), p_prev(a) == p_prev(b))

def err(name, *args):
    """term of a library error class"""
    if args: return cls('T:' + NS + 'error::' + name, *args)
    return cls('R:' + NS + 'error::' + name)
def nt(kind, v):
    """non-type template argument of an integral type"""
    return T.ICt(z3.IntVal(100 + KINDS[kind]), I(v))
def fails(line, col, msg):
    """specified outcome: compilation fails with a diagnostic naming these values"""
    x = IllFormed('specified to fail')
    x.diag = (line, col, msg)
    raise x
VOID = cls('P:void')
IVOID = cls('R:' + NS + 'impl::void_')

def ground_il(l):
    while True:
        if not z3.is_app(l): return False
        n = l.decl().name()
        if n == 'inil': return True
        if n != 'icons' or not z3.is_int_value(l.arg(0)): return False
        l = l.arg(1)
def ground_str(t):
    return z3.is_app(t) and t.sort().eq(T) and t.decl().name() == 'Str' and ground_il(t.arg(0))

class Ctx:
    def is_rej(self, r): return is_('Rej', r)
    def is_acc(self, r): return is_('Acc', r)

class SymCtx(Ctx):
    concrete = False
    ver = False
    def __init__(self, e):
        self.e = e
        self.std = e.std
    def V(self, t):
        m = self.e.tokmap
        return m.get(keep(t).get_id()) or self.e.classes.get(t.get_id()) or Sym(t)
    def tok(self, v):
        if not isinstance(v, V): return v
        if isinstance(v, Sym): return v.t
        if isinstance(v, SpecFn): t = v.token()
        else: t = self.e.reify(v)
        self.e.tokmap[keep(t).get_id()] = v
        return t
    def ite(self, c, a, b):
        return a() if self.e.decide(c) else b()
    def cond(self, c): return self.e.decide(c)
    def sel(self, c, a, b): return ite(z3.simplify(c) if z3.is_expr(c) else c, a, b)
    def run(self, P, S, Pos):
        if not isinstance(P, V): P = self.V(P)
        if isinstance(P, SpecFn): return P.fn(self, S, Pos)
        e = self.e
        if isinstance(P, Sym):
            t = app2(P.t, S, Pos); e.parser_result_facts(t); return t
        v = e.merge(lambda: e.mtype(e.inst(e.mtmpl(P, 'apply'), [Sym(S), Sym(Pos)]), 'type'), ('run', P.key(), keep(S).get_id(), keep(Pos).get_id()))
        return e.reify_val(v)
    def app(self, F, *xs, role=None):
        if not isinstance(F, V): F = self.V(F)
        if isinstance(F, SpecFn): return F.fn(self, *xs)
        e = self.e
        if isinstance(F, Sym):
            r = e.app_value(App(F.t, [Sym(x) for x in xs]))
            return r.t
        v = e.merge(lambda: e.mtype(e.inst(e.mtmpl(F, 'apply'), [Sym(x) for x in xs]), 'type'), ('app', F.key()) + tuple(keep(x).get_id() for x in xs))
        return e.reify_val(v)
    def rec(self, R, *args):
        if any(ground_str(a) for a in args): return R.unfold(self, *args)      # a literal input: compute
        t = R.uf(*args)
        (R.facts or default_facts)(self, args, t)
        return t
    def fact(self, f): self.e.assume(f)
    def hd(self, s): return self.e.seg_hd(s)
    def tl(self, s): return self.e.seg_tl(s)
    def char(self, x): self.e.char_facts(x); return x

def default_facts(c, args, t):
    c.e.parser_result_facts(t)
