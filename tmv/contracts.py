"""Contracts on the templates of /repo.  Every entry is a machine-checked
specification of one class template (or class / typedef) of metaparse."""
import re, z3, limits
from terms import *
from spec import *
from engine import NS, Env

CON = {}

# ---- subjects that are C++ type expressions over the parameters ($name)
_TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|\$\w+|-?\d+|[A-Za-z_]\w*(?:::[A-Za-z_]\w*)*|::[A-Za-z_]\w*|[<>,()])')
def parse_expr(text):
    toks = _TOK.findall(text); pos = [0]
    assert ''.join(toks).replace(' ', '') == text.replace(' ', ''), text
    def peek(): return toks[pos[0]] if pos[0] < len(toks) else None
    def nxt(): pos[0] += 1; return toks[pos[0] - 1]
    def args():
        nxt(); out = []
        while peek() != '>':
            out.append(expr())
            if peek() == ',': nxt()
        nxt()
        return out
    def expr():
        t = nxt()
        if t == '(': r = expr(); nxt()
        elif t[0] == '$': r = ('param', t[1:])
        elif t[0] == '"': r = ('str', t[1:-1].encode().decode('unicode_escape'))
        elif t.lstrip('-').isdigit(): r = ('int', int(t))
        else:
            q = t.replace('mp::', NS, 1) if t.startswith('mp::') else t.replace('mpl::', 'boost::mpl::', 1) if t.startswith('mpl::') else t
            r = ('inst', q, args()) if peek() == '<' else ('name', q)
        while peek() and peek().startswith('::'):
            m = nxt()[2:]
            r = ('mtmpl', r, m, args()) if peek() == '<' else ('member', r, m)
        return r
    r = expr()
    assert pos[0] == len(toks), text
    return r
def eval_expr(e, a, env):
    k = a[0]
    if k == 'param': return env[a[1]]
    if k == 'int': return IntV(a[1], 'int')
    if k == 'str': return Sym(T.Str(ilist([z3.IntVal(ord(x)) for x in a[1]])))
    if k == 'inst':
        xs = []
        for x in a[2]:
            v = eval_expr(e, x, env)
            if isinstance(v, list): xs.extend(v)
            else: xs.append(v)
        if a[1] == 'vn::id': return Lazy(xs[0], False, 'vn')
        return e.inst(e.named_tmpl(a[1]), xs)
    if k == 'name':
        if a[1] in ('int', 'char', 'bool', 'long'): return Prim(a[1])
        if a[1] in e.prog.typedefs: return e.ty(e.prog.typedefs[a[1]], Env((), {}))
        return e.named_rec(a[1])
    if k == 'member':
        return e.mtype(eval_expr(e, a[1], env), a[2])
    if k == 'mtmpl':
        return e.inst(e.mtmpl(eval_expr(e, a[1], env), a[2]), [eval_expr(e, x, env) for x in a[3]])
def cpp_expr(a, env):
    k = a[0]
    if k == 'param': return env[a[1]]
    if k == 'int': return str(a[1])
    if k == 'str': return 'boost::metaparse::string<%s>' % ','.join(str(ord(x)) for x in a[1])
    if k == 'inst': return '%s<%s >' % (a[1].replace('vn::id', 'vn::lazy'), ', '.join(x for x in (cpp_expr(x, env) for x in a[2]) if x))
    if k == 'name': return a[1]
    if k == 'member': return '%s::%s' % (cpp_expr(a[1], env), a[2])
    return '%s::%s<%s >' % (cpp_expr(a[1], env), a[2], ', '.join(cpp_expr(x, env) for x in a[3]))

class Contract:
    style = 'apply'
    opaque = True
    def __init__(self, name, params, spec, use=None, kind='tmpl', stds=('98', '11', '14'), style='apply', prop=None, req=None,
                 opaque=True, intercept=True, shapes=None, variants=None, apply_params=('S', 'Pos'), internal=False, qname=None,
                 header=None, loop=None, split=None, also=(), text=None, maxlen=4, facts=None, explicit98=None, lens98=range(0, limits.STR + 1), noforce=False, runtext=None, arr=None, stdout=None):
        self.arr = arr              # a static array member whose elements are specified
        self.stdout = stdout        # default construction writes the specified text to standard output and ends as specified
        self.runtext = runtext      # a static member function whose returned text is specified
        self.noforce = noforce
        self.post = None
        self.lens98 = lens98
        self.explicit98 = explicit98
        self.name, self.params, self.spec, self.use_spec = name, params, spec, use or spec
        self.kind, self.stds, self.style, self.prop, self.req = kind, stds, style, prop, req
        self.opaque, self.intercept, self.shapes, self.variants = opaque, intercept, shapes, variants
        self.apply_params = apply_params
        self.internal = internal
        self.qname = qname or (NS + name)
        self.header = header
        self.also = also
        self.loop = loop
        self.split = split
        self.text, self.maxlen = text, maxlen
        self.ast = parse_expr(text) if text else None
        CON[name] = self
    def applies_std(self, std): return std in self.stds or (std in ('17', '20') and '14' in self.stds)
    def headers(self):
        if isinstance(self.header, (list, tuple)): return list(self.header)
        return [self.header or 'boost/metaparse/%s.hpp' % self.name.replace('::', '/')]

    # ---- call-site interface used by the engine
    def unpack(self, e, inst):
        """template arguments -> python values by role, or None"""
        if isinstance(inst, Rec): return []
        out = []
        args = list(inst.args)
        i = 0
        flat = e.flatten(args)
        for pi, p in enumerate(self.params):
            r = p.split(':')[0]
            if r in ('PS', 'CS', 'CtS', 'BS'):
                rest = [x for x in flat[i:] if not e.is_na(x)]
                if e.std == '98':
                    rest = [x for x in rest if not self.not_used(e, x)]
                out.append(rest)
                i = len(flat)
                continue
            if i >= len(flat): return None
            a = flat[i]; i += 1
            if isinstance(a, Seg): return None
            out.append(self.conv(e, r, a))
        return out
    def not_used(self, e, x):
        if isinstance(x, IntV): return x.concrete() and x.v in (-1,) and False
        return isinstance(x, Rec) and e.prog.decls[x.rid]['qname'].endswith('not_used')
    def conv(self, e, r, a):
        if r[0] in '~!': r = r[1:]
        if r in ('P', 'F', 'Op', 'Pred', 'E', 'TT'): return a
        if r in ('C', 'N'): return I(a.v)
        if r in ('Ct', 'Nt'): return I(e.mval(e.mtype(a, 'type'), 'value').v)
        if r in ('S',): return e.reify_val(a)
        if r in ('Sv', 'St'): return e.reify_val(a)     # forced value
        if r in ('R', 'Posv', 'X', 'Y'): return e.reify_val(a)
        if r in ('M', 'V'): return e.reify(a)
        raise Unsupported('role ' + r)
    def accepts(self, e, inst):
        try:
            a = self.unpack(e, inst)
        except IllFormed:
            return False
        if a is None: return False
        c = SymCtx(e)
        if self.req is not None:
            q = self.req(c, *a)
            if q is not True and not e.entails(q): return False
        return True
    def value(self, e, inst, args):
        a = self.unpack(e, inst)
        c = SymCtx(e)
        ap = [self.conv(e, p.split(':')[0], x) if ':' in p else e.reify_val(x) for p, x in zip(self.apply_params, args)]
        return self.use_spec(c, *(a + ap))

def lookup(q, _m={}):
    if not _m or len(_m) != len([c for c in CON.values() if c.intercept and c.kind not in ('typedef', 'expr')]):
        _m.clear()
        for c in CON.values():
            if c.intercept and c.kind not in ('typedef', 'expr'): _m[c.qname] = c
    return _m.get(q)

Str, Acc, Rej, SeqT = T.Str, T.Acc, T.Rej, T.SeqT

# ============================================================ characters and positions
def next_pos(c, Pos, ch):
    l, col, pr = p_line(Pos), p_col(Pos), p_prev(Pos)
    nl = z3.Or(ch == 13, z3.And(ch == 10, pr != 13))
    return T.Pos(c.sel(nl, l + 1, l), c.sel(nl, z3.IntVal(1), col + 1), ch)
def sp_one_char(c, S, Pos):
    il = s_chars(S)
    return c.ite(is_inil(il), lambda: Rej(err('unexpected_end_of_input'), Pos),
                 lambda: Acc(ic('char', c.char(ihd(il))), Str(itl(il)), next_pos(c, Pos, ihd(il))))
def sp_char_when(pred, msg, eof=None):
    """one character satisfying pred; msg on mismatch, eof at the end of the input"""
    def f(c, *a):
        S, Pos = a[-2:]
        il = s_chars(S)
        m = msg(c, *a[:-2]) if callable(msg) else msg
        return c.ite(is_inil(il), lambda: Rej((eof(c, *a[:-2]) if callable(eof) else eof) if eof is not None else err('unexpected_end_of_input'), Pos),
                     lambda: c.ite(pred(c, c.char(ihd(il)), *a[:-2]), lambda: Acc(ic('char', ihd(il)), Str(itl(il)), next_pos(c, Pos, ihd(il))),
                                   lambda: Rej(m, Pos)))
    return f
def inr(x, lo, hi): return z3.And(x >= lo, x <= hi)
isdig = lambda x: inr(x, 48, 57)
isup = lambda x: inr(x, 65, 90)
islow = lambda x: inr(x, 97, 122)
isws = lambda x: z3.Or(x == 32, x == 13, x == 10, x == 9)

MEMB = z3.Function('spec_member', z3.IntSort(), IL, z3.BoolSort())
def member(c, x, items, val=lambda c, v: I(v.v)):
    """x occurs among the pack items (concrete elements and at most one symbolic tail)"""
    r = z3.BoolVal(False)
    for it in items:
        if isinstance(it, Seg):
            r = or_(r, member_seg(c, x, it))
        else: r = or_(r, x == val(c, it))
    return r
def member_seg(c, x, s):
    """x occurs in the values of a symbolic pack segment (types are read through ::type::value)"""
    if not s.isint() and s.fmap is None:
        s = Seg(s.base, 'int', None, s.role, lambda raw: c.e.mval(c.e.mtype(raw, 'type'), 'value'), 'value')
    return MEMB(x, c.e.reify_seg(s))
_exf = {}
def exists_seg(c, s):
    """some element of the (possibly mapped) bool pack is true"""
    y = z3.Int('map!x') if s.isint() else z3.Const('map!t', T)
    r = s.fmap(IntV(y, s.ct or 'char') if s.isint() else Sym(y)) if s.fmap else IntV(y, 'bool')
    phi = c.e.truth(r)
    phi = z3.BoolVal(phi) if isinstance(phi, bool) else z3.simplify(phi)
    if s.isint() and z3.is_eq(phi):
        a, b = phi.children()
        for u, v in ((a, b), (b, a)):
            if u.eq(y) and not mentions(v, y): return MEMB(v, s.base)
    k = (phi.sexpr(), s.isint())
    if k not in _exf: _exf[k] = z3.Function('spec_exists%d' % len(_exf), s.base.sort(), z3.BoolSort())
    return _exf[k](s.base)
def mentions(t, y):
    return t.eq(y) or any(mentions(ch, y) for ch in t.children())
def cval(c, v):
    if isinstance(v, IntV): return I(v.v)
    return I(c.e.mval(c.e.mtype(v, 'type'), 'value').v)

Contract('one_char', [], sp_one_char, kind='rec', prop='C05')
Contract('lit_c', ['C:k'], sp_char_when(lambda c, x, k: x == k, lambda c, k: err('literal_expected', nt('char', k)), lambda c, k: err('literal_expected', nt('char', k))), prop='C05')
Contract('lit', ['Ct:k'], CON['lit_c'].spec, prop='C05')
Contract('digit', [], sp_char_when(lambda c, x: isdig(x), err('digit_expected'), err('digit_expected')), kind='typedef', prop='C05')
Contract('letter', [], sp_char_when(lambda c, x: z3.Or(isup(x), islow(x)), err('letter_expected')), kind='typedef', prop='C05')
Contract('space', [], sp_char_when(lambda c, x: isws(x), err('whitespace_expected')), kind='typedef', prop='C05')
Contract('range_c', ['C:lo', 'C:hi'], sp_char_when(lambda c, x, lo, hi: inr(x, lo, hi), err('unexpected_character')), prop='C05')
Contract('range', ['Ct:lo', 'Ct:hi'], CON['range_c'].spec, prop='C05')
Contract('one_char_except_c', ['CS:cs'], sp_char_when(lambda c, x, cs: not_(member(c, x, cs, cval)), err('unexpected_character')), prop='C05')
Contract('one_char_except', ['CtS:cs'], CON['one_char_except_c'].spec, prop='C05')
def sp_one_of_c(c, cs, S, Pos):
    if c.std == '98':
        # one_of<lit_c<..>...>: the error is the one of the alternative listed last (none listed: nothing found)
        il = s_chars(S)
        m = err('literal_expected', nt('char', cval(c, cs[-1]))) if cs else err('none_of_the_expected_cases_found')
        return c.ite(z3.Or(is_inil(il), not_(member(c, ihd(il), cs, cval))), lambda: Rej(m, Pos),
                     lambda: Acc(ic('char', c.char(ihd(il))), Str(itl(il)), next_pos(c, Pos, ihd(il))))
    return sp_char_when(lambda c, x, cs: member(c, x, cs, cval), err('none_of_the_expected_cases_found'))(c, cs, S, Pos)
Contract('one_of_c', ['CS:cs'], sp_one_of_c, prop='C05')

# character-class predicates behind the parsers above
def sp_is_none(c, d, cs, unfold=True):
    return ic('bool', not_(sp_memb(c, d, cs, unfold)))
def sp_memb(c, d, cs, unfold):
    if unfold and len(cs) == 1 and isinstance(cs[0], Seg):
        s = cs[0]
        if c.cond(c.e.seg_isnil(s)): return z3.BoolVal(False)
        return or_(d == cval(c, c.hd(s)), member(c, d, [c.tl(s)], cval))
    return member(c, d, cs, cval)
Contract('impl::is_none_c_impl', ['C:d', 'CS:cs'], sp_is_none, use=lambda c, d, cs: sp_is_none(c, d, cs, False), style='meta', stds=('11', '14'), prop='C05', internal=True)
def sp_or(c, bs, unfold=True):
    if unfold and len(bs) == 1 and isinstance(bs[0], Seg):
        s = bs[0]
        if c.cond(c.e.seg_isnil(s)): return ic('bool', 0)
        bs = [c.hd(s), c.tl(s)]
    r = z3.BoolVal(False)
    for b in bs:
        if isinstance(b, Seg): t = exists_seg(c, b)
        else:
            t = c.e.truth(b)
            if isinstance(t, bool): t = z3.BoolVal(t)
        r = or_(r, t)
    return ic('bool', r)
Contract('impl::or_c', ['BS:bs'], sp_or, use=lambda c, bs: sp_or(c, bs, False), style='meta', stds=('11',), prop='C05', internal=True)
DROP = z3.Function('spec_drop', IL, Int, IL)
def inv_any_of(c, cs, x):
    """loop invariant: no element before position k equals x, i.e. membership in the whole
    pack is membership in what is left from k on"""
    if len(cs) != 1 or not isinstance(cs[0], Seg): return None
    b = cs[0].base
    class L:
        seg = cs[0]
        length = c.e.seg_len(cs[0])
        def suffix(self, k): return DROP(b, k)
        def seg_in(self, arr): return len(arr.items) == 1 and isinstance(arr.items[0], Seg) and arr.items[0].base.eq(b)
        def facts(self, k):
            d, d1 = DROP(b, k), DROP(b, k + 1)
            return [DROP(b, z3.IntVal(0)) == b, z3.Implies(k == self.length, IL.is_inil(d)),
                    z3.Implies(k < self.length, z3.And(IL.is_icons(d), d1 == IL.itl(d))),
                    MEMB(x, d) == z3.If(IL.is_inil(d), z3.BoolVal(False), z3.Or(x == IL.ihd(d), MEMB(x, IL.itl(d))))]
        def inv(self, k): return MEMB(x, b) == MEMB(x, DROP(b, k))
        def acc(self, k, found): return MEMB(x, b) == z3.Or(found, MEMB(x, DROP(b, k)))     # with a flag remembering what was seen
    return L()
def sp_any_of(c, cs, x):
    if len(cs) == 1 and isinstance(cs[0], Seg):
        b = cs[0].base
        c.fact(MEMB(x, b) == z3.If(is_inil(b), z3.BoolVal(False), z3.Or(x == IL.ihd(b), MEMB(x, IL.itl(b)))))
    return ic('bool', member(c, x, cs, cval))
Contract('impl::any_of_c', ['CS:cs'], sp_any_of, use=lambda c, cs, x: ic('bool', member(c, x, cs, cval)), apply_params=('Ct:x',), stds=('11', '14'), prop='C05', internal=True,
         loop=lambda c, vals, ap: inv_any_of(c, vals[0], ap[0]))

# ============================================================ results of running parsers
def rerr(c, r, els):
    return c.ite(is_('Rej', r), lambda: r, els)

def sp_transform(c, P, F, S, Pos):
    r = c.run(P, S, Pos)
    return rerr(c, r, lambda: Acc(c.app(F, a_res(r)), a_rem(r), a_pos(r)))
Contract('transform', ['P:P', 'F:F'], sp_transform, prop='C11')
Contract('swap', ['Op:F'], lambda c, F, a, b: c.app(F, b, a), apply_params=('X:a', 'X:b'), prop='C11', header='boost/metaparse/v1/swap.hpp')
def sp_transform_error(c, P, E, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: c.app(E, r, role='errfn'), lambda: r)
Contract('transform_error', ['P:P', 'E:E'], sp_transform_error, prop='C11')
def sp_transform_error_message(c, P, F, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: Rej(c.app(F, r_msg(r)), r_pos(r)), lambda: r)
Contract('transform_error_message', ['P:P', 'F:F'], sp_transform_error_message, prop='C11')
def sp_change_error_message(c, P, M, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: Rej(M, Pos), lambda: r)
Contract('change_error_message', ['P:P', 'M:M'], sp_change_error_message, prop='C11')
def sp_accept_when(c, P, Pred, M, S, Pos):
    r = c.run(P, S, Pos)
    return rerr(c, r, lambda: c.ite(ic_val(c.app(Pred, a_res(r), role='pred')) != 0, lambda: r, lambda: Rej(M, Pos)))
Contract('accept_when', ['P:P', 'Pred:Pred', 'M:M'], sp_accept_when, prop='C11')
def sp_always(c, P, V, S, Pos):
    r = c.run(P, S, Pos)
    return rerr(c, r, lambda: Acc(V, a_rem(r), a_pos(r)))
Contract('always', ['P:P', 'V:V'], sp_always, prop='C11')
Contract('always_c', ['C:k', 'V:V'], lambda c, k, V, S, Pos: sp_always(c, SpecFn('lit_c', (k,), lambda c, S, Pos: CON['lit_c'].spec(c, k, S, Pos)), V, S, Pos), prop='C11')
Contract('return_', ['V:V'], lambda c, V, S, Pos: Acc(V, S, Pos), prop='C11')
Contract('fail', ['M:M'], lambda c, M, S, Pos: Rej(M, Pos), prop='C11')
Contract('empty', ['V:V'], lambda c, V, S, Pos: c.ite(is_inil(s_chars(S)), lambda: Acc(V, S, Pos), lambda: Rej(err('end_of_input_expected'), Pos)), prop='C11')
def sp_entire_input(c, P, M, S, Pos):
    r = c.run(P, S, Pos)
    return rerr(c, r, lambda: c.ite(is_inil(s_chars(a_rem(r))), lambda: r, lambda: Rej(M, a_pos(r))))
Contract('entire_input', ['P:P', 'M:M'], sp_entire_input, prop='C11',
         variants={'default message': (['P:P'], lambda c, P, S, Pos: sp_entire_input(c, P, err('end_of_input_expected'), S, Pos))})

# ============================================================ non-consuming
def sp_optional(c, P, D, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: Acc(D, S, Pos), lambda: r)
Contract('optional', ['P:P', 'V:D'], sp_optional, prop='C07', variants={'default': (['P:P'], lambda c, P, S, Pos: sp_optional(c, P, VOID, S, Pos))})
def sp_except(c, P, V, M, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: Acc(V, S, Pos), lambda: Rej(M, Pos))
Contract('except', ['P:P', 'V:V', 'M:M'], sp_except, prop='C07')
def sp_look_ahead(c, P, S, Pos):
    r = c.run(P, S, Pos)
    return rerr(c, r, lambda: Acc(a_res(r), S, Pos))
Contract('look_ahead', ['P:P'], sp_look_ahead, prop='C07')
def sp_if_(c, P, A, B, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: Acc(B, S, Pos), lambda: Acc(A, S, Pos))
Contract('if_', ['P:P', 'V:A', 'V:B'], sp_if_, prop='C07')
def sp_fail_at_first(c, P, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: c.ite(poseq(Pos, r_pos(r)), lambda: Acc(IVOID, S, Pos), lambda: r), lambda: Rej(err('expected_to_fail'), Pos))
Contract('fail_at_first_char_expected', ['P:P'], sp_fail_at_first, prop='C07')

# ============================================================ alternatives
def later(c, r1, r2):
    """the error that got further; a tie goes to r2"""
    return c.sel(less(r_pos(r2), r_pos(r1)), r1, r2)
def one_of_step(c, st, r):
    return c.sel(is_('Acc', st), st, c.sel(is_('Acc', r), r, later(c, st, r)))
Contract('impl::one_of_fwd_op', ['S:S', 'Posv:Pos'], lambda c, S, Pos, st, P: one_of_step(c, st, c.run(P, S, Pos)), apply_params=('R:State', 'P:P'), stds=('98',), prop='C07', internal=True)
def u_one_of(c, ps, S, Pos):
    return sp_one_of_list(c, [Seg(ps, 'type', role='parser')], S, Pos, True)
ONE_OF = RecFn('one_of', [TL, T, T], u_one_of)
def sp_one_of_list(c, ps, S, Pos, unfold=False):
    if c.std == '98':
        st = Rej(err('none_of_the_expected_cases_found'), Pos)
        for p in ps:
            r = c.run(p, S, Pos)
            st = one_of_step(c, st, r)
        return st
    if not ps: return Rej(err('none_of_the_expected_cases_found'), Pos)
    p = ps[0]
    if isinstance(p, Seg):
        if len(ps) != 1: raise Unsupported('pack shape')
        if not unfold: return c.rec(ONE_OF, p.base, S, Pos)
        if c.cond(c.e.seg_isnil(p)): return Rej(err('none_of_the_expected_cases_found'), Pos)
        ps = [c.hd(p), c.tl(p)]
    r = c.run(ps[0], S, Pos)
    def rest():
        r2 = sp_one_of_list(c, ps[1:], S, Pos)
        return c.ite(is_('Rej', r2), lambda: later(c, r, r2), lambda: r2)
    return c.ite(is_('Rej', r), rest, lambda: r)
Contract('one_of', ['PS:ps'], lambda c, ps, S, Pos: sp_one_of_list(c, ps, S, Pos, True), use=sp_one_of_list, prop='C07')
Contract('alphanum', [], lambda c, S, Pos: sp_one_of_list(c, [SpecFn('letter', (), CON['letter'].spec), SpecFn('digit', (), CON['digit'].spec)], S, Pos), kind='typedef', prop='C07')

# ============================================================ sequencing
def seq_facts(c, args, t):
    default_facts(c, args, t)
    c.fact(z3.Implies(T.is_Acc(t), T.is_SeqT(T.a_res(t))))
SEQ = RecFn('sequence', [TL, T, T], lambda c, ps, S, Pos: sp_sequence(c, [Seg(ps, 'type', role='parser')], S, Pos, True), seq_facts)
def sp_sequence(c, ps, S, Pos, unfold=False):
    if not ps: return Acc(SeqT(TL.tnil), S, Pos)
    p = ps[0]
    if isinstance(p, Seg):
        if len(ps) != 1: raise Unsupported('pack shape')
        if not unfold: return c.rec(SEQ, p.base, S, Pos)
        if c.cond(c.e.seg_isnil(p)): return Acc(SeqT(TL.tnil), S, Pos)
        ps = [c.hd(p), c.tl(p)]
    r = c.run(ps[0], S, Pos)
    def rest():
        r2 = sp_sequence(c, ps[1:], a_rem(r), a_pos(r))
        return rerr(c, r2, lambda: Acc(SeqT(TL.tcons(a_res(r), sq_elems(a_res(r2)))), a_rem(r2), a_pos(r2)))
    return rerr(c, r, rest)
Contract('sequence', ['PS:ps'], lambda c, ps, S, Pos: sp_sequence(c, ps, S, Pos, True), use=sp_sequence, prop='C06')

SKIP = RecFn('skip', [T, TL, T, T], lambda c, v, ps, S, Pos: sp_skip(c, v, [Seg(ps, 'type', role='parser')], S, Pos, True))
def sp_skip(c, v, ps, S, Pos, unfold=False):
    if not ps: return Acc(v, S, Pos)
    if isinstance(ps[0], Seg):
        if len(ps) != 1: raise Unsupported('pack shape')
        if not unfold: return c.rec(SKIP, v, ps[0].base, S, Pos)
        if c.cond(c.e.seg_isnil(ps[0])): return Acc(v, S, Pos)
        ps = [c.hd(ps[0]), c.tl(ps[0])]
    r = c.run(ps[0], S, Pos)
    return rerr(c, r, lambda: sp_skip(c, v, ps[1:], a_rem(r), a_pos(r)))
NTH = RecFn('nth', [Int, TL, T, T], lambda c, n, ps, S, Pos: sp_nth(c, n, [Seg(ps, 'type', role='parser')], S, Pos, True))
def sp_nth(c, n, ps, S, Pos, unfold=False):
    """requires 0 <= n < length"""
    if not ps: raise IllFormed('nth: index out of range')
    if isinstance(ps[0], Seg):
        if len(ps) != 1: raise Unsupported('pack shape')
        if not unfold: return c.rec(NTH, I(n), ps[0].base, S, Pos)
        c.e.seg_len(ps[0])
        if c.cond(c.e.seg_isnil(ps[0])): raise IllFormed('nth: index out of range')
        ps = [c.hd(ps[0]), c.tl(ps[0])]
    r = c.run(ps[0], S, Pos)
    def go():
        return c.ite(I(n) == 0, lambda: sp_skip(c, a_res(r), ps[1:], a_rem(r), a_pos(r)), lambda: sp_nth(c, z3.simplify(I(n) - 1), ps[1:], a_rem(r), a_pos(r)))
    return rerr(c, r, go)
def plen(c, ps):
    n = 0
    for p in ps: n = n + (c.e.seg_len(p) if isinstance(p, Seg) else 1)
    return n
Contract('impl::nth_of_c', ['N:n', 'X:S', 'X:Pos', 'PS:ps'], lambda c, n, S, Pos, ps: sp_nth(c, n, ps, S, Pos, True),
         use=lambda c, n, S, Pos, ps: sp_nth(c, n, ps, S, Pos), req=lambda c, n, S, Pos, ps: z3.And(I(n) >= 0, I(n) < plen(c, ps)),
         style='meta', stds=('11', '14'), prop='C06', internal=True)
Contract('impl::nth_of_c_skip_remaining', ['M:v', 'X:S', 'X:Pos', 'PS:ps'], lambda c, v, S, Pos, ps: sp_skip(c, v, ps, S, Pos, True),
         use=lambda c, v, S, Pos, ps: sp_skip(c, v, ps, S, Pos), style='meta', stds=('11', '14'), prop='C06', internal=True)
def oor(n, N): return err('index_out_of_range', nt('int', 0), nt('int', n), nt('int', N))
def sp_first_of(c, ps, S, Pos):
    return c.ite(I(plen(c, ps)) == 0, lambda: Rej(oor(-1, 0), Pos), lambda: sp_nth(c, 0, ps, S, Pos))
Contract('first_of', ['PS:ps'], sp_first_of, prop='C06')
def sp_last_of(c, ps, S, Pos):
    n = plen(c, ps)
    # no parser at all: the reported index is the one asked for (-1 in C++98, 0 later)
    return c.ite(I(n) == 0, lambda: Rej(oor(-1, -1 if c.std == '98' else 0), Pos), lambda: sp_nth(c, n - 1, ps, S, Pos))
Contract('last_of', ['PS:ps'], sp_last_of, prop='C06')
def sp_nth_of_c(c, N, ps, S, Pos):
    n = I(plen(c, ps))
    return c.ite(z3.And(N >= 0, N < n), lambda: sp_nth(c, N, ps, S, Pos), lambda: Rej(oor(z3.simplify(n - 1), N), Pos))
Contract('nth_of_c', ['N:N', 'PS:ps'], sp_nth_of_c, prop='C06')
Contract('nth_of', ['Nt:N', 'PS:ps'], sp_nth_of_c, prop='C06')
def sp_middle_of(c, P1, P2, P3, S, Pos):
    r1 = c.run(P1, S, Pos)
    def k2():
        r2 = c.run(P2, a_rem(r1), a_pos(r1))
        def k3():
            r3 = c.run(P3, a_rem(r2), a_pos(r2))
            return c.ite(is_('Rej', r3), lambda: Rej(err('unpaired', nt('int', p_line(Pos)), nt('int', p_col(Pos)), r_msg(r3)), r_pos(r3)),
                         lambda: Acc(a_res(r2), a_rem(r3), a_pos(r3)))
        return rerr(c, r2, k3)
    return rerr(c, r1, k2)
Contract('middle_of', ['P:P1', 'P:P2', 'P:P3'], sp_middle_of, prop='C06')
def sp_seq_apply(n):
    def f(c, Tm, *a):
        ps, S, Pos = list(a[:n]), a[-2], a[-1]
        r = sp_sequence(c, ps, S, Pos)
        def k():
            xs = []; l = sq_elems(a_res(r))
            for _ in range(n): xs.append(thd(l)); l = ttl(l)
            return Acc(c.tmpl(Tm, xs), a_rem(r), a_pos(r))
        return rerr(c, r, k)
    return f
for _n in range(1, limits.SEQ):
    Contract('sequence_apply%d' % _n, ['TT:F'] + ['P:P%d' % i for i in range(_n)], sp_seq_apply(_n), prop='C06', header='boost/metaparse/sequence_apply.hpp')
def _tmpl(self, Tm, xs):
    return self.e.reify(self.e.inst(Tm, [Sym(x) for x in xs]))
SymCtx.tmpl = _tmpl

# ============================================================ folds
def u_foldl(c, P, St, Op, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: Acc(St, S, Pos), lambda: c.rec(FOLDL, c.tok(P), c.app(Op, St, a_res(r)), c.tok(Op), a_rem(r), a_pos(r)))
def foldl_facts(c, args, t):
    default_facts(c, args, t)
    c.fact(T.is_Acc(t))
FOLDL = RecFn('foldl', [T, T, T, T, T], u_foldl, foldl_facts, tokens={0: ('parser', None), 2: ('op', 1)})
def sp_foldl(c, P, St, Op, S, Pos): return c.rec(FOLDL, c.tok(P), St, c.tok(Op), S, Pos)
Contract('foldl', ['P:P', 'St:St', 'Op:Op'], u_foldl, use=sp_foldl, prop='C08')
def one_or_more(fold):
    def f(c, P, St, Op, S, Pos):
        r = c.run(P, S, Pos)
        return rerr(c, r, lambda: fold(c, P, St, Op, S, Pos))
    return f
def start_with(fold):
    def f(c, P, StP, Op, S, Pos):
        r = c.run(StP, S, Pos)
        return rerr(c, r, lambda: fold(c, P, a_res(r), Op, a_rem(r), a_pos(r)))
    return f
sp_foldl1 = one_or_more(sp_foldl)
Contract('foldl1', ['P:P', 'St:St', 'Op:Op'], sp_foldl1, prop='C08')
Contract('foldl_start_with_parser', ['P:P', 'P:StP', 'Op:Op'], start_with(sp_foldl), prop='C08')
PB = SpecFn('push_back', (), lambda c, s, x: SeqT(snoc(sq_elems(s), x)))
EMPTYSEQ = SeqT(TL.tnil)
Contract('repeated', ['P:P'], lambda c, P, S, Pos: sp_foldl(c, P, EMPTYSEQ, PB, S, Pos), prop='C08')
Contract('repeated1', ['P:P'], lambda c, P, S, Pos: sp_foldl1(c, P, EMPTYSEQ, PB, S, Pos), prop='C08')
def spec_one_of(c, ps):
    def f(c2, S, Pos): return sp_one_of_list(c2, ps, S, Pos)
    return SpecFn('one_of', [SeqT(c.e.reify_items(ps))] if not c.concrete else [], f)
Contract('repeated_one_of', ['PS:ps'], lambda c, ps, S, Pos: sp_foldl(c, spec_one_of(c, ps), EMPTYSEQ, PB, S, Pos), prop='C08')
Contract('repeated_one_of1', ['PS:ps'], lambda c, ps, S, Pos: sp_foldl1(c, spec_one_of(c, ps), EMPTYSEQ, PB, S, Pos), prop='C08')

def u_foldl_ri(c, P, St, Op, S, Pos):
    r = c.run(P, S, Pos)
    return c.ite(is_('Rej', r), lambda: c.ite(poseq(Pos, r_pos(r)), lambda: Acc(St, S, Pos), lambda: r),
                 lambda: c.rec(FOLDLRI, c.tok(P), c.app(Op, St, a_res(r)), c.tok(Op), a_rem(r), a_pos(r)))
FOLDLRI = RecFn('foldl_reject_incomplete', [T, T, T, T, T], u_foldl_ri, None, tokens={0: ('parser', None), 2: ('op', 1)})
def sp_foldl_ri(c, P, St, Op, S, Pos): return c.rec(FOLDLRI, c.tok(P), St, c.tok(Op), S, Pos)
Contract('foldl_reject_incomplete', ['P:P', 'St:St', 'Op:Op'], u_foldl_ri, use=sp_foldl_ri, prop='C10')
Contract('foldl_reject_incomplete1', ['P:P', 'St:St', 'Op:Op'], one_or_more(sp_foldl_ri), prop='C10')
Contract('foldl_reject_incomplete_start_with_parser', ['P:P', 'P:StP', 'Op:Op'], start_with(sp_foldl_ri), prop='C10')
Contract('repeated_reject_incomplete', ['P:P'], lambda c, P, S, Pos: sp_foldl_ri(c, P, EMPTYSEQ, PB, S, Pos), prop='C10')
Contract('repeated_reject_incomplete1', ['P:P'], lambda c, P, S, Pos: one_or_more(sp_foldl_ri)(c, P, EMPTYSEQ, PB, S, Pos), prop='C10')

def u_foldr(c, P, StP, Op, S, Pos):
    r = c.run(P, S, Pos)
    def more():
        rr = c.rec(FOLDR, c.tok(P), c.tok(StP), c.tok(Op), a_rem(r), a_pos(r))
        return rerr(c, rr, lambda: Acc(c.app(Op, a_res(rr), a_res(r)), a_rem(rr), a_pos(rr)))
    return c.ite(is_('Rej', r), lambda: c.run(StP, S, Pos), more)
FOLDR = RecFn('foldr', [T, T, T, T, T], u_foldr, None, tokens={0: ('parser', None), 1: ('parser', None), 2: ('op', None)})
def sp_foldr_sp(c, P, StP, Op, S, Pos): return c.rec(FOLDR, c.tok(P), c.tok(StP), c.tok(Op), S, Pos)
Contract('foldr_start_with_parser', ['P:P', 'P:StP', 'Op:Op'], u_foldr, use=sp_foldr_sp, prop='C09')
def sret(v): return SpecFn('return', (v,), lambda c, S, Pos: Acc(v, S, Pos))
def sp_foldr(c, P, St, Op, S, Pos): return sp_foldr_sp(c, P, sret(St), Op, S, Pos)
Contract('foldr', ['P:P', 'V:St', 'Op:Op'], sp_foldr, prop='C09')
Contract('foldr1', ['P:P', 'V:St', 'Op:Op'], one_or_more(sp_foldr), prop='C09')
def sp_foldr_ri(c, P, St, Op, S, Pos):
    """the repetition must stop at an error on its first character"""
    def stop(c, S, Pos):
        r = sp_fail_at_first(c, P, S, Pos)
        return rerr(c, r, lambda: Acc(St, a_rem(r), a_pos(r)))
    return sp_foldr_sp(c, P, SpecFn('stop', (c.tok(P), St), stop), Op, S, Pos)
Contract('foldr_reject_incomplete', ['P:P', 'V:St', 'Op:Op'], sp_foldr_ri, prop='C10')
Contract('foldr_reject_incomplete1', ['P:P', 'V:St', 'Op:Op'], one_or_more(sp_foldr_ri), prop='C10')

# ============================================================ iteration
def u_iter(c, n, P, Ac, S, Pos):
    def step():
        r = c.run(P, S, Pos)
        return rerr(c, r, lambda: c.rec(ITER, z3.simplify(I(n) - 1), c.tok(P), SeqT(snoc(sq_elems(Ac), a_res(r))), a_rem(r), a_pos(r)))
    return c.ite(I(n) == 0, lambda: Acc(Ac, S, Pos), step)
def iter_facts(c, args, t):
    default_facts(c, args, t)
ITER = RecFn('iterate', [Int, T, T, T, T], u_iter, iter_facts, tokens={1: ('parser', None)})
def sp_iter(c, n, P, Ac, S, Pos):
    n = z3.simplify(I(n))
    if not c.concrete and z3.is_int_value(n) and 0 <= n.as_long() <= 8: return u_iter_n(c, n.as_long(), P, Ac, S, Pos)
    return c.rec(ITER, n, c.tok(P), Ac, S, Pos)
def u_iter_n(c, n, P, Ac, S, Pos):
    if n == 0: return Acc(Ac, S, Pos)
    r = c.run(P, S, Pos)
    return rerr(c, r, lambda: u_iter_n(c, n - 1, P, SeqT(snoc(sq_elems(Ac), a_res(r))), a_rem(r), a_pos(r)))
Contract('impl::iterate_impl', ['N:n', 'P:P', 'Sv:Ac'], u_iter, use=sp_iter, req=lambda c, n, P, Ac: z3.And(n >= 0, T.is_SeqT(Ac)), prop='C08', internal=True)
Contract('iterate_c', ['P:P', 'N:n'], lambda c, P, n, S, Pos: sp_iter(c, n, P, EMPTYSEQ, S, Pos), req=lambda c, P, n: n >= 0, prop='C08')
Contract('iterate', ['P:P', 'Nt:n'], CON['iterate_c'].spec, req=lambda c, P, n: n >= 0, prop='C08')

# ============================================================ numbers, keywords, tokens
def sp_digit_val(c, S, Pos):
    r = CON['digit'].spec(c, S, Pos)
    return rerr(c, r, lambda: Acc(ic('int', ic_val(a_res(r)) - 48), a_rem(r), a_pos(r)))
Contract('digit_val', [], sp_digit_val, kind='typedef', prop='C12')
ADDDIG = SpecFn('add_digit', (), lambda c, s, d: ic('int', ic_val(s) * 10 + ic_val(d)))
SP_DIGIT_VAL = SpecFn('digit_val', (), sp_digit_val)
Contract('int_', [], lambda c, S, Pos: sp_foldl1(c, SP_DIGIT_VAL, ic('int', 0), ADDDIG, S, Pos), kind='typedef', prop='C12')
CON['int_'].inputs = [x + y for x in ('0', '12', '255', '256', '1000', '32768', '65535', '99999', '123456', '1234567', '16777217', '98765432', '987654321', '123456789', '1073741824', '2147483646', '000000000012') for y in ('', 'x', ' 1')]
def u_keyword(c, K, V, S, Pos):
    k = s_chars(K)
    def go():
        r = CON['lit_c'].spec(c, c.char(ihd(k)), S, Pos)
        return rerr(c, r, lambda: sp_keyword(c, Str(itl(k)), V, a_rem(r), a_pos(r)))
    return c.ite(is_inil(k), lambda: Acc(V, S, Pos), go)
KW = RecFn('keyword', [T, T, T, T], u_keyword)
def sp_keyword(c, K, V, S, Pos):
    return c.rec(KW, K, V, S, Pos)
Contract('keyword', ['S:K', 'V:V'], u_keyword, use=sp_keyword, prop='C13', variants={'default result': (['S:K'], lambda c, K, S, Pos: u_keyword(c, K, IVOID, S, Pos))})
SP_SPACE = SpecFn('space', (), CON['space'].spec)
Contract('spaces', [], lambda c, S, Pos: sp_foldl1(c, SP_SPACE, EMPTYSEQ, PB, S, Pos), kind='typedef', prop='C13')
def sp_token(c, P, S, Pos):
    r = c.run(P, S, Pos)
    def k():
        q = sp_foldl(c, SP_SPACE, EMPTYSEQ, PB, a_rem(r), a_pos(r))
        return Acc(a_res(r), a_rem(q), a_pos(q))
    return rerr(c, r, k)
Contract('token', ['P:P'], sp_token, prop='C13')

import contracts_core
import contracts_grammar
