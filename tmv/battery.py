"""Replay: runs contracts as concrete programs against the real headers with the
real compiler.  Expected outcomes come from the contract's specification,
evaluated concretely (ConCtx); arguments are either the solver's counterexample
or seeded random choices; parsers and operations passed in are table-driven
mocks."""
import z3, random, os, subprocess, concurrent.futures, re, shutil, limits
from terms import *
from spec import *
from engine import *
import contracts as K

class Skip(Exception): pass

def ground(t):
    return z3.simplify(t)

class Mock(V):
    """mock metafunction class: total function = table, else default"""
    __slots__ = ('name', 'kind', 'table', 'gen')
    def __init__(self, name, kind, gen): self.name, self.kind, self.table, self.gen = name, kind, {}, gen
    def mkkey(self): return ('MK', self.name)
    def token(self): return cls('mockfn:' + self.name)

class ConCtx(Ctx):
    concrete = True
    ver = True
    def __init__(self, std, rng=None):
        self.std, self.rng, self.toks, self.steps = std, rng, {}, 0
        self.e = None
    def V(self, t):
        t = ground(t)
        return self.toks[t.sexpr()]
    def tok(self, v):
        if not isinstance(v, V): return v
        if isinstance(v, SpecFn): t = v.token()
        elif isinstance(v, Mock): t = v.token()
        else: raise Unsupported('token')
        t = ground(t)
        self.toks[t.sexpr()] = v
        return t
    def truth(self, c):
        if isinstance(c, bool): return c
        s = z3.simplify(c)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        raise Unsupported('not ground: ' + str(s)[:200])
    def ite(self, c, a, b): return a() if self.truth(c) else b()
    def cond(self, c): return self.truth(c)
    def sel(self, c, a, b):
        try: return a if self.truth(c) else b
        except Unsupported: return b          # the value is not used
    def run(self, P, S, Pos):
        if not isinstance(P, V): P = self.V(P)
        if isinstance(P, SpecFn): return P.fn(self, S, Pos)
        return self.call(P, [S, Pos])
    def call(self, F, xs):
        self.steps += 1
        if self.steps > 120: raise Skip('does not terminate')
        xs = [ground(x) for x in xs]
        if F.kind == 'op': return cls('mockop:' + F.name, *xs)
        k = tuple(x.sexpr() for x in xs)
        if k not in F.table:
            if F.gen is None: return default_of(F, xs)
            F.table[k] = (xs, F.gen(self, F, xs))
        return F.table[k][1]
    def app(self, F, *xs, role=None):
        if not isinstance(F, V): F = self.V(F)
        if isinstance(F, SpecFn): return F.fn(self, *xs)
        return self.call(F, list(xs))
    def rec(self, R, *args):
        self.steps += 1
        if self.steps > 120: raise Skip('does not terminate')
        return R.unfold(self, *[ground(a) for a in args])
    def fact(self, f): pass
    def char(self, x): return x
    def tmpl(self, Tm, xs): return cls('mocktmpl:F', *xs)

def default_of(F, xs):
    if F.kind == 'parser': return T.Rej(cls('mock:dflt'), xs[1])
    if F.kind == 'pred': return ic('bool', 0)
    if F.kind == 'errfn': return T.Rej(cls('mock:dflt'), T.Pos(z3.IntVal(1), z3.IntVal(1), z3.IntVal(0)))
    raise Unsupported('default of ' + F.kind)

# ------------------------------------------------------------------ ground term <-> python
def ints(il):
    out = []
    while is_cons_app(il, 'icons'):
        out.append(il.arg(0).as_long()); il = il.arg(1)
    if not is_cons_app(il, 'inil'): raise Unsupported('list')
    return out
def terms_of(tl):
    out = []
    while is_cons_app(tl, 'tcons'):
        out.append(tl.arg(0)); tl = tl.arg(1)
    if not is_cons_app(tl, 'tnil'): raise Unsupported('list')
    return out

class Emit:
    """ground terms -> C++"""
    def __init__(self, std):
        self.std = std
        self.mocks = {}
    def opaque(self, t):
        k = t.sexpr()
        if k not in self.mocks: self.mocks[k] = 'mv%d' % len(self.mocks)
        return self.mocks[k]
    def charlit(self, v):
        if not -128 <= v <= 127: raise Unsupported('character value %d' % v)
        return '((char)%d)' % v
    def string(self, xs):
        for x in xs:
            if not -128 <= x <= 127 or (self.std == '98' and x == -1): raise Unsupported('character value %d' % x)
        if len(xs) > (limits.STR if self.std == '98' else 32): raise Unsupported('long string')
        if self.std == '98':
            return 'boost::metaparse::v1::string<%s>' % ', '.join(['%d' % x for x in xs] + ['-1'] * (limits.STR - len(xs)))
        return 'boost::metaparse::v1::string<%s>' % ', '.join('((char)%d)' % x for x in xs)
    KN = {1: 'int', 2: 'char', 3: 'bool', 4: 'long', 5: 'std::size_t'}
    def raw(self, t):
        """a C++ type denoting the value t"""
        n = t.decl().name()
        if n == 'Acc': return 'boost::metaparse::v1::accept<%s, %s, %s >' % (self.raw(t.arg(0)), self.raw(t.arg(1)), self.raw(t.arg(2)))
        if n == 'Rej': return 'boost::metaparse::v1::reject<%s, %s >' % (self.raw(t.arg(0)), self.raw(t.arg(1)))
        if n == 'Pos':
            l, c, p = (t.arg(i).as_long() for i in range(3))
            if not (-2**31 <= l < 2**31 and -2**31 <= c < 2**31): raise Unsupported('position')
            return 'boost::metaparse::v1::source_position<boost::mpl::int_<%d>, boost::mpl::int_<%d>, boost::mpl::char_<%s> >' % (l, c, self.charlit(p))
        if n == 'Str': return self.string(ints(t.arg(0)))
        if n == 'ICt':
            k, v = t.arg(0).as_long(), t.arg(1).as_long()
            if k >= 100: return '%d' % v if k != 102 else self.charlit(v)
            if k not in self.KN: return self.opaque(t)
            if k == 1: return 'boost::mpl::int_<(int)%dL>' % v
            if k == 2: return 'boost::mpl::char_<%s>' % self.charlit(v)
            if k == 3: return 'boost::mpl::bool_<%s>' % ('true' if v else 'false')
            return 'boost::mpl::integral_c<%s, %d>' % (self.KN[k], v)
        if n == 'SeqT':
            return 'boost::mpl::vector<%s>' % ', '.join(self.raw(x) for x in terms_of(t.arg(0)))
        if n == 'Cls': return self.clsname(t)
        return self.opaque(t)
    def clsname(self, t):
        name = cname(t.arg(0).as_long())
        if name.startswith('?'): return self.opaque(t)
        try: args = terms_of(t.arg(1))
        except Unsupported: return self.opaque(t)
        if name.startswith('mock:'):
            return self.opaque(t)
        if name.startswith('mockop:'): return 'op_%s<%s >' % (name[7:], ', '.join(self.norm(a) for a in args))
        if name.startswith('mocktmpl:'): return 'F<%s >' % ', '.join(self.raw(a) for a in args)
        if name.startswith('T:'): return '%s<%s >' % (name[2:], ', '.join(self.raw(a) for a in args))
        if name.startswith('R:') and not args: return name[2:]
        if name.startswith('P:') and not args: return name[2:]
        return self.opaque(t)
    def norm(self, t):
        n = t.decl().name()
        if n == 'Acc': return 'vn::acc<%s, %s, %s >' % tuple(self.norm(t.arg(i)) for i in range(3))
        if n == 'Rej': return 'vn::rej<%s, %s >' % tuple(self.norm(t.arg(i)) for i in range(2))
        if n == 'Pos': return 'vn::pos<%s>' % ', '.join(str(t.arg(i).as_long()) for i in range(3))
        if n == 'Str':
            r = 'vn::nil'
            for x in reversed(ints(t.arg(0))): r = 'vn::icons<%d, %s >' % (x, r)
            return 'vn::str<%s >' % r
        if n == 'SeqT':
            r = 'vn::nil'
            for x in reversed(terms_of(t.arg(0))): r = 'vn::cons<%s, %s >' % (self.norm(x), r)
            return 'vn::seq<%s >' % r
        if n == 'ICt':
            k, v = t.arg(0).as_long(), t.arg(1).as_long()
            if k in self.KN: return 'vn::ic<%s, %d>' % (self.KN[k], v)
            return self.opaque(t)
        return self.raw(t)

# ------------------------------------------------------------------ cases
ALPHA = [97, 98, 99, 48, 49, 57, 32, 10, 13, 9, 65, 90, 122, 47, 58, 64, 91, 96, 123, 45]
def rnd_chars(rng, n): return [rng.choice(ALPHA) if rng.random() < .9 else rng.choice([x for x in range(-128, 128) if x != -1]) for _ in range(n)]
BIG = [9, 10, 99, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 32767, 32768, 65535, 65536, 70000, 1000000]
def rnd_pos(rng):
    l, c, p = rng.randint(1, 4), rng.randint(1, 6), rng.choice([0, 97, 13, 10, 32])
    if rng.random() < .2: l = rng.choice(BIG)
    if rng.random() < .2: c = rng.choice(BIG)
    if rng.random() < .1: p = rng.randint(-128, 127)
    return T.Pos(z3.IntVal(l), z3.IntVal(c), z3.IntVal(p))
def near_pos(rng, q):
    """a position that differs from q in few components"""
    x = [q.arg(i).as_long() for i in range(3)]
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        i = rng.randrange(3)
        x[i] += rng.choice([1, -1, 2, 10, 100, 127, 128, 256, -256, 512, 65536]) if i < 2 else rng.choice([1, -1, 3, 13 - x[2]])
    if not -128 <= x[2] <= 127: x[2] = q.arg(2).as_long()
    return T.Pos(*[z3.IntVal(max(1, v) if i < 2 else v) for i, v in enumerate(x)])
def adv(Pos, chars):
    l, c, p = (Pos.arg(i).as_long() for i in range(3))
    for ch in chars:
        if ch == 13 or (ch == 10 and p != 13): l, c = l + 1, 1
        else: c += 1
        p = ch
    return T.Pos(z3.IntVal(l), z3.IntVal(c), z3.IntVal(p))

def reached(S, P, S2, P2):
    a, q = ints(S.arg(0)), ints(S2.arg(0))
    n = len(a) - len(q)
    return n >= 0 and a[n:] == q and ground(adv(P, a[:n])).eq(ground(P2))

def gen_parser(c, F, xs):
    rng = c.rng
    S, Pos = xs
    cs = ints(S.arg(0))
    k = len(F.table)
    op = cls('mock:%s_%d' % (F.name, rng.randint(0, 3)))
    r = rng.random()
    if k < 6 and r < (0.55 if cs else 0.12):
        n = min(len(cs), rng.choice([1, 1, 1, 2, 0]))
        np = adv(Pos, cs[:n])
        if n == 0 and not getattr(c, 'consistent', False): np = T.Pos(Pos.arg(0), z3.IntVal(Pos.arg(1).as_long() + 1), Pos.arg(2)) if rng.random() < .8 or k > 2 else np
        return T.Acc(op, T.Str(ilist([z3.IntVal(x) for x in cs[n:]])), np)
    if rng.random() < 0.6: return T.Rej(op, Pos)
    d = rng.choice(['col', 'line', 'prev', 'back'])
    l, co, p = (Pos.arg(i).as_long() for i in range(3))
    if d == 'col': co += rng.randint(1, 2)
    elif d == 'line': l, co = l + 1, rng.randint(1, 3)
    elif d == 'prev': p = (p + rng.choice([-1, 1, 5])) % 100
    else: co = max(1, co - 1)
    return T.Rej(op, T.Pos(z3.IntVal(l), z3.IntVal(co), z3.IntVal(p)))
def gen_pred(c, F, xs): return ic('bool', c.rng.randint(0, 1))
def gen_errfn(c, F, xs):
    rng = c.rng
    if rng.random() < .5 or getattr(c, 'consistent', False): return T.Rej(cls('mock:%s_e%d' % (F.name, rng.randint(0, 2))), rnd_pos(rng))
    return T.Acc(cls('mock:%s_r%d' % (F.name, rng.randint(0, 2))), T.Str(ilist([z3.IntVal(x) for x in rnd_chars(rng, rng.randint(0, 2))])), rnd_pos(rng))

class Case:
    def __init__(self, con, std, variant, params, vals, argtext, apv, expected, mocks, origin):
        self.con, self.std, self.variant, self.params, self.vals, self.argtext, self.apv, self.expected, self.mocks, self.origin = \
            con, std, variant, params, vals, argtext, apv, expected, mocks, origin
    def freeze(self):
        self.emit(0)
        for a in ('vals', 'argtext', 'apv', 'mocks'): setattr(self, a, None)
        self.expected = None
        self.rt = bool(self.con.runtext or self.con.arr or self.con.stdout)
        self.conname, self.hdrs = self.con.name, self.con.headers()
        self.con = None
        self.spec = None
        return self
    def emit(self, n):
        # z3 is not thread-safe: the text is produced once, by the thread that made the case
        if getattr(self, 'text', None) is None: self.text = self.emit_('@N@')
        return self.text.replace('@N@', str(n))
    def emit_(self, n):
        em = Emit(self.std)
        subj = self.con.qname
        args = []
        for a in self.argtext: args.append(a(em) if callable(a) else a)
        if self.con.kind == 'expr':
            env = {}
            i = 0
            for p, v in zip(self.params, self.vals):
                role, name = p.split(':')
                k = len(v) if role in ('PS', 'CS', 'CtS', 'BS') else 1
                env[name] = ', '.join(args[i:i + k]); i += k
            subj = K.cpp_expr(self.con.ast, env)
        elif self.con.kind == 'tmpl': subj += '<%s >' % ', '.join(args) if args else '<>'
        if self.con.arr:
            es = ', '.join(str(x) for x in ints(s_chars(ground(self.expected))))
            return 'namespace case_%s {\n  static const signed char exp_[] = { %s };\n  static std::string expected() { return std::string((const char*)exp_, sizeof(exp_)); }\n  static std::string actual() { return std::string(%s::%s, sizeof(%s::%s)); }\n}\n' % (n, es, subj, self.con.arr, subj, self.con.arr)
        if self.con.runtext or self.con.stdout:
            bodies = ''.join([self.emit_mock(em, m) for m in self.mocks])
            def lit(t):
                n = t.decl().name()
                if n == 'ICt': return '%d' % t.arg(1).as_long()
                nm = cname(t.arg(0).as_long())
                if nm.startswith('end:'): return ', '.join(str(ord(x)) for x in '[%s]' % nm[4:])
                a = terms_of(t.arg(1))[0]
                if nm == 'text:of': return ', '.join(str(ord(x)) for x in 'text of ' + em.raw(a))
                raise Unsupported('text')
            es = ', '.join(lit(x) for x in terms_of(ground(self.expected).arg(0)))
            decl = ''.join('  struct %s { typedef %s type; static std::string get_value() { return "text of %s"; } };\n' % (v, v, v) for v in em.mocks.values())
            return 'namespace case_%s {\n%s  static const signed char exp_[] = { %s, 0 };\n  static std::string expected() { return std::string((const char*)exp_, sizeof(exp_) - 1); }\n  static std::string actual() { return %s; }\n}\n' % (
                n, decl + bodies, es, '%s::%s()' % (subj, self.con.runtext) if self.con.runtext else 'vn_capture<%s >()' % (subj if self.con.stdout is True else subj + '::' + self.con.stdout))
        exp = em.norm(ground(self.expected))
        if getattr(self, 'diag', None) and not isinstance(self.diag, str):
            self.diag = r'<\s*%d,\s*%d,\s*[^;\n]*\b%s\b' % (self.diag[0], self.diag[1], em.raw(self.diag[2]).split('::')[-1])
        if self.con.style == 'apply':
            ap = ', '.join(x(em) if callable(x) else em.raw(ground(x)) for x in self.apv)
            actual = '%s::apply<%s >' % (subj, ap)
        else: actual = subj
        body = []
        for m in self.mocks: body.append(self.emit_mock(em, m))
        decl = ''.join('  struct %s { typedef %s type; };\n' % (v, v) for v in em.mocks.values())
        if self.con.post:
            return 'namespace case_%s {\n%s%s  typedef vn::post_%s<%s, %s, vn::outcome<%s >::type>::type actual;\n  typedef vn::yes expected;\n}\n' % (
                n, decl, ''.join(body), self.con.post, em.norm(ground(self.apv[0])), em.norm(ground(self.apv[1])), actual)
        return 'namespace case_%s {\n%s%s  typedef vn::outcome%s<%s >::type actual;\n  typedef %s expected;\n}\n' % (n, decl, ''.join(body), '_nf' if self.con.noforce else '', actual, exp)
    def emit_mock(self, em, m):
        if isinstance(m, str): return m
        if m.kind == 'op':
            n = m.table.get('arity', 1)
            ps = ', '.join('class A%d' % i for i in range(n)); us = ', '.join('typename vn::norm<A%d>::type' % i for i in range(n))
            return '  template <%s> struct op_%s { typedef op_%s type; };\n  struct %s { typedef %s type; template <%s> struct apply : op_%s<%s> { typedef op_%s<%s> type; }; };\n' % (ps, m.name, m.name, m.name, m.name, ps, m.name, us, m.name, us)
        rows = ''
        n = {'parser': 2, 'pred': 1, 'errfn': 1}[m.kind]
        gp = ', '.join('class A%d' % i for i in range(n))
        dfl = {'parser': 'vn_dflt_parser<A0, A1>', 'pred': 'boost::mpl::bool_<false>', 'errfn': 'vn_dflt_err'}[m.kind]
        norm = lambda x: em.norm(x)
        for xs, r in m.table.values():
            rows += '  template <class D> struct tab_%s<%s, D> : %s {};\n' % (m.name, ', '.join(norm(x) for x in xs) + (', A0, A1' if False else ''), em.raw(r))
        if m.kind == 'parser':
            dm = em.opaque(cls('mock:dflt'))
            head = '  template <class S, class P, class D> struct tab_%s { typedef boost::metaparse::v1::reject<%s, typename D::type> type; };\n' % (m.name, dm)
            rows = ''.join('  template <class D> struct tab_%s<%s, %s, D> { typedef %s type; };\n' % (m.name, norm(xs[0]), norm(xs[1]), em.raw(r)) for xs, r in m.table.values())
            return head + rows + '  struct %s { typedef %s type; template <class S, class P> struct apply : tab_%s<typename vn::fnorm<S>::type, typename vn::fnorm<P>::type, P>::type {}; };\n' % (m.name, m.name, m.name)
        if m.kind == 'pred':
            head = '  template <class A, class D> struct tab_%s { typedef boost::mpl::bool_<false> type; };\n' % m.name
        else:
            head = '  template <class A, class D> struct tab_%s { typedef %s type; };\n' % (m.name, em.raw(default_of(m, None)))
        rows = ''.join('  template <class D> struct tab_%s<%s, D> { typedef %s type; };\n' % (m.name, norm(xs[0]), em.raw(r)) for xs, r in m.table.values())
        f = 'vn::norm' if m.kind == 'pred' else 'vn::fnorm'
        return head + rows + '  struct %s { typedef %s type; template <class A> struct apply : tab_%s<typename %s<A>::type, int>::type {}; };\n' % (m.name, m.name, m.name, f)

def mk_case(con, std, variant, params, spec, choose, origin, rng):
    """choose(role, name, i) -> python value for a parameter"""
    vals, argtext, mocks = [], [], []
    c = ConCtx(std, rng)
    c.consistent = bool(con.post)
    def one(role, name):
        if role[0] == '~':
            v, t = one(role[1:], name)
            return v, (lambda em, t=t: 'vn::lazy<%s >' % (t(em) if callable(t) else t))
        if role[0] == '!': return one(role[1:], name)
        if role in ('P',):
            m = choose(role, name); mocks.append(m); return m, m.name
        if role in ('F', 'Op'):
            m = Mock(name, 'op', None); m.table['arity'] = 2 if role == 'Op' else 1
            mocks.append(m); return m, name
        if role in ('Pred', 'E'):
            m = choose(role, name); mocks.append(m); return m, m.name
        if role == 'TT':
            n = sum(1 for p in params if p.startswith('P:'))
            ps = ', '.join('class A%d' % i for i in range(n))
            mocks.append('  template <%s> struct F { typedef F type; };\n' % ps); return None, 'F'
        v = choose(role, name)
        if role in ('M', 'V', 'St', 'Sv', 'X'): return v, (lambda em, v=v: em.raw(ground(v)))
        if role == 'C': return z3.IntVal(v), '((char)%d)' % v
        if role == 'N': return z3.IntVal(v), '(%d)' % v
        if role == 'B': return z3.IntVal(v), 'true' if v else 'false'
        if role == 'Ct': return z3.IntVal(v), 'boost::mpl::char_<((char)%d)>' % v
        if role == 'Nt': return z3.IntVal(v), 'boost::mpl::int_<(%d)>' % v
        if role in ('S', 'R', 'Posv', 'Y'): return v, (lambda em, v=v: em.raw(ground(v)))
        raise Unsupported('role ' + role)
    for p in params:
        role, name = p.split(':')
        if role in ('PS', 'CS', 'CtS', 'BS'):
            n = choose('len', name)
            items = []
            for i in range(n):
                v, t = one({'PS': 'P', 'CS': 'C', 'CtS': 'Ct', 'BS': 'B'}[role], '%s%d' % (name, i + 1))
                if role != 'PS': v = IntV(v.as_long(), 'char' if role != 'BS' else 'bool')
                items.append(v); argtext.append(t)
            vals.append(items)
        else:
            v, t = one(role, name)
            vals.append(v); argtext.append(t)
    apv = []; aps = []
    if con.style == 'apply':
        for a in con.apply_params:
            if a in ('S', 'Pos'): x = choose(a, a); apv.append(x); aps.append(x)
            else:
                role, name = a.split(':'); v, t = one(role, name); apv.append(t if callable(t) else (lambda em, t=t: t)); aps.append(v)
    if con.req is not None:
        q = con.req(c, *vals)
        if q is not True and not c.truth(q): raise Skip()
    diag = None
    try: exp = spec(c, *(vals + aps))
    except IllFormed as x:
        if getattr(x, 'diag', None) is None:
            if not getattr(con, 'illcase', False): raise Skip()
            diag = 'error: '; exp = VOID
        else: diag = [ground(I(x.diag[0])).as_long(), ground(I(x.diag[1])).as_long(), ground(x.diag[2])]; exp = VOID
    for m in mocks:
        if isinstance(m, Mock):
            m.gen = None
            if con.post and m.kind == 'parser':
                for xs, r in m.table.values():
                    if r.decl().name() == 'Acc' and not reached(xs[0], xs[1], r.arg(1), r.arg(2)): raise Skip('inconsistent sub-parser')
            if con.post and m.kind == 'errfn' and any(r.decl().name() == 'Acc' for _, r in m.table.values()): raise Skip('inconsistent')
    k = Case(con, std, variant, params, vals, argtext, apv, ground(exp), mocks, origin)
    k.diag = diag
    return k

def random_case(con, std, rng, k=0, fixed=None):
    variants = [('', con.params, con.spec)] + [(n, p, s) for n, (p, s) in (con.variants or {}).items()]
    vn, params, spec = variants[k % len(variants)]
    import verify
    size = rng.randint(0, con.maxlen) if rng.random() < .8 else con.maxlen
    if con.maxlen <= 4 and rng.random() < .12: size = rng.randint(5, 12)
    last = []
    chars = rnd_chars(rng, size)
    al = getattr(con, 'alphabet', None)
    if al: chars = [rng.choice(al) if rng.random() < .85 else x for x in chars]
    if fixed is not None: chars = fixed
    def choose(role, name):
        if role == 'P': return Mock(name, 'parser', gen_parser)
        if role == 'Pred': return Mock(name, 'pred', gen_pred)
        if role == 'E': return Mock(name, 'errfn', gen_errfn)
        if role == 'len':
            if std == '98': 
                r = verify.CAP98.get(getattr(con, 'base', con.name), range(0, 5)); r = [x for x in r if x <= 5] + ([max(r)] if rng.random() < .1 else [])
                return rng.choice(list(r))
            return rng.randint(0, 5)
        if role in ('M', 'V', 'St', 'Sv', 'X'):
            if con.name == 'impl::iterate_impl': return T.SeqT(TL.tnil)
            return cls('mock:%s' % name)
        if role in ('C', 'Ct'):
            v = rng.choice(chars) if chars and rng.random() < .5 else rng.choice(ALPHA)
            return v
        if role in ('N', 'Nt'): return rng.choice([0, 0, 1, 1, 2, 3, 4, -1, 5]) if rng.random() < .85 else rng.choice([-2, 6, 7, 8, 9, 11])
        if role == 'B': return rng.randint(0, 1)
        if role == 'S' and name == 'S': return T.Str(ilist([z3.IntVal(x) for x in chars]))
        if role == 'S':
            ks = chars[:rng.randint(0, len(chars))] if rng.random() < .6 else rnd_chars(rng, rng.randint(0, 3))
            return T.Str(ilist([z3.IntVal(x) for x in ks]))
        if role in ('Pos', 'Posv'):
            last.append(near_pos(rng, rng.choice(last)) if last and rng.random() < .7 else rnd_pos(rng)); return last[-1]
        if role == 'Y': return rng.choice([gen_errfn(ConCtx(std, rng), Mock(name, 'errfn', None), [None]), rnd_pos(rng), ic('int', 3), cls('mock:y'), T.Str(ilist([z3.IntVal(x) for x in chars]))])
        if role == 'R': return gen_errfn(ConCtx(std, rng), Mock(name, 'errfn', None), [None])
        raise Unsupported('role ' + role)
    return mk_case(con, std, vn, params, spec, choose, 'random', rng)

def byte_cases(con, std, rng):
    """a parser without parser arguments: every first character (times a few contexts)"""
    for b in range(-128, 128):
        if std == '98' and b == -1: continue
        for vn, params, spec in [('', con.params, con.spec)]:
            def choose(role, name):
                if role == 'len': return 3 if std != '98' else min(3, max(__import__('verify').CAP98.get(getattr(con, 'base', con.name), [3])))
                if role in ('C', 'Ct'): return rng.choice([b, b - 1, b + 1, rng.choice(ALPHA)]) if -128 < b < 127 and (std != '98' or b not in (0, -2)) else rng.choice(ALPHA)
                if role == 'S': return T.Str(ilist([z3.IntVal(x) for x in [b] + rnd_chars(rng, rng.randint(0, 2))]))
                if role == 'Pos': return rnd_pos(rng)
                if role in ('M', 'V', 'St', 'Sv', 'X'): return cls('mock:%s' % name)
                raise Unsupported('role')
            try:
                c = mk_case(con, std, vn, params, spec, choose, 'byte %d' % b, rng)
                c.emit(0)
                yield c
            except (Skip, Unsupported): pass

def cases_for(con, std, seed, n, light=False):
    if con.kind == 'lemma': return []
    if getattr(con, 'cases', None): return con.cases(con, std, seed, n)
    rng = random.Random('%s/%s/%s' % (seed, con.name, std))
    out = []
    roles = {p.split(':')[0] for p in con.params}
    if con.style == 'apply' and con.apply_params == ('S', 'Pos') and not roles & {'P', 'PS', 'TT', 'N', 'Nt', 'M', 'E', 'F', 'Op', 'Pred'}:
        out += [c.freeze() for c in byte_cases(con, std, rng) if not light or rng.random() < .06]
    for text in getattr(con, 'inputs', ()):
        try: out.append(random_case(con, std, rng, 0, [ord(x) for x in text]).freeze())
        except (Skip, Unsupported): pass
    k = 0; tries = 0
    while k < n and tries < 4 * n:
        tries += 1
        try: out.append(random_case(con, std, rng, k).freeze()); k += 1
        except (Skip, Unsupported): pass
    return out

def model_case(std, cur, m, terms):
    """concrete case from a solver model"""
    con, vn, params, spec, shape = cur
    ev = lambda t: m.eval(t, model_completion=True)
    apps = []
    seen = set()
    def walk(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() in ('app1', 'app2'): apps.append(t)
            for ch in t.children(): walk(ch)
    for t in terms: walk(t)
    def san(t):
        """values whose structure does not matter become opaque types"""
        n = t.decl().name()
        if n == 'Acc': return T.Acc(san(t.arg(0)), t.arg(1), t.arg(2))
        if n == 'Rej': return T.Rej(san(t.arg(0)), t.arg(1))
        if n == 'ICt' and 1 <= t.arg(0).as_long() <= 2 and -100 < t.arg(1).as_long() < 100: return t
        return cls('mock:v' + str(abs(hash(t.sexpr())) % 100000))
    def table(mock, val, n):
        for a in apps:
            if a.num_args() != n + 1 or a.decl().name() != 'app%d' % n: continue
            if not ev(a.arg(0)).eq(val): continue
            xs = [ground(ev(a.arg(i + 1))) for i in range(n)]
            r = ground(ev(a))
            if mock.kind == 'parser':
                if xs[0].decl().name() != 'Str' or xs[1].decl().name() != 'Pos': continue
                mock.table[tuple(x.sexpr() for x in xs)] = (xs, san(r))
            elif mock.kind == 'pred':
                x = san(xs[0]); mock.table[(x.sexpr(),)] = ([x], r)
            elif mock.kind == 'errfn':
                x = san(xs[0]); mock.table[(x.sexpr(),)] = ([x], san(r))
        return mock
    lists = {}
    def elem(name):
        """value of a parameter (or of the i-th element of a pack)"""
        mm = re.match(r'(.*?)(\d+)$', name)
        if mm and mm.group(1) in lists: return lists[mm.group(1)][int(mm.group(2)) - 1]
        return None
    def choose(role, name):
        if role == 'len':
            if 'pack' in shape: return shape['pack']
            r = [p.split(':')[0] for p in params if p.split(':')[1] == name][0]
            l = ev(z3.Const(name, TL if r in ('PS', 'CtS') else IL))
            lists[name] = terms_of(l) if r in ('PS', 'CtS') else [z3.IntVal(x) for x in ints(l)]
            if len(lists[name]) > 8: raise Skip('long pack')
            return len(lists[name])
        v = elem(name)
        if role in ('P', 'Pred', 'E'):
            kind = {'P': 'parser', 'Pred': 'pred', 'E': 'errfn'}[role]
            return table(Mock(name, kind, None), v if v is not None else ev(z3.Const(name, T)), 2 if role == 'P' else 1)
        if role in ('M', 'V', 'St', 'Sv', 'X'):
            t = ev(z3.Const(name, T))
            return t if role in ('Sv', 'X') and t.decl().name() in ('SeqT', 'Str', 'Pos') else cls('mock:' + name)
        if role in ('C', 'B'): return (v if v is not None else ev(z3.Int(name) if role == 'C' else I(z3.Bool(name)))).as_long()
        if role == 'N': return shape['n'] if 'n' in shape else ev(z3.Int(name)).as_long()
        if role == 'Nt': return shape['n'] if 'n' in shape else ev(T.ic_val(z3.Const(name, T))).as_long()
        if role == 'Ct': return ev(T.ic_val(v if v is not None else z3.Const(name, T))).as_long()
        if role == 'S' and 'slen' in shape: return T.Str(ilist([ev(z3.Int('%s_%d' % (name, i))) for i in range(shape['slen'])]))
        if role == 'S': return T.Str(ev(z3.Const(name, IL)))
        if role in ('Pos', 'Posv'): return T.Pos(*[ev(z3.Int(name + x)) for x in ('_l', '_c', '_p')])
        if role == 'Y': return ev(z3.Const(name, T))
        if role == 'R': return san(ev(z3.Const(name, T)))
        raise Unsupported('role ' + role)
    return mk_case(con, std, vn, params, spec, choose, 'counterexample', None).freeze()

# ------------------------------------------------------------------ running
REPO = os.environ.get('TMV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
def program(cases, idx, show=False):
    hs = sorted({h for c in cases for h in c.hdrs})
    t = ''.join('#include <%s>\n' % h for h in hs)
    t += '#include "norm.hpp"\n' if not show else open(os.path.join(HERE, 'norm.hpp')).read()
    ok = []
    for i, c in zip(idx, cases):
        try: t += c.emit(i); ok.append(i)
        except Unsupported: pass
    rt = {i for i, c in zip(idx, cases) if getattr(c, 'rt', False)}
    t += 'int main() {\n' + ''.join('  VN_%sCASE(%d, ~);\n' % ('T' if i in rt else '', i) for i in ok) + (''.join('  VN_%sSHOW(%d);\n' % ('T' if i in rt else '', i) for i in ok) if show else '') + '}\n'
    return t, ok

def gpp(src, exe, std, defs=()):
    return subprocess.run(['g++', '-std=c++' + std, '-w', '-O0', '-ftemplate-depth-600', '-I', os.path.join(REPO, 'include'), '-I', HERE] + list(limits.DEFS) + list(defs) + [src, '-o', exe],
                          capture_output=True, text=True, errors='replace', timeout=300)

def run_cases(cases, std, work, jobs=8, chunk=40, defs=()):
    """-> list of (case, 'ok' | 'mismatch' | 'does not compile', text)"""
    os.makedirs(work, exist_ok=True)
    keep_ = []
    for c in cases:
        try: c.emit(0); keep_.append(c)
        except Unsupported: pass
    cases = keep_
    single = [i for i, c in enumerate(cases) if getattr(c, 'diag', None)]
    many = [i for i, c in enumerate(cases) if not getattr(c, 'diag', None)]
    groups = {}
    for i in many: groups.setdefault(tuple(getattr(cases[i], 'defs', ())), []).append(i)
    chunks = []
    for g in groups.values():
        k = min(chunk, getattr(cases[g[0]], 'chunk', chunk))
        chunks += [g[i:i + k] for i in range(0, len(g), k)]
    seen = {}
    few = []
    for i in single:
        k = getattr(cases[i], 'key', None); seen[k] = seen.get(k, 0) + 1
        few.append((seen[k], i))
    chunks += [[i] for _, i in sorted(few)[:64]]
    def do(idx):
        tag = '%s_%s' % (std, idx[0]) + ('s' if len(idx) == 1 else '')
        src, exe = os.path.join(work, 'b_%s.cpp' % tag), os.path.join(work, 'b_%s' % tag)
        text, ok = program([cases[i] for i in idx], idx)
        if not ok: return []
        open(src, 'w').write(text)
        try: r = gpp(src, exe, std, list(defs) + list(getattr(cases[idx[0]], 'defs', ())))
        except subprocess.TimeoutExpired: return []
        dg = getattr(cases[idx[0]], 'diag', None)
        if dg:
            if r.returncode == 0: return [(cases[idx[0]], 'compiles, although compilation is specified to fail', '')]
            if re.search(dg, r.stderr): return [(cases[idx[0]], 'ok', '')]
            return [(cases[idx[0]], 'fails to compile without the specified diagnostic (%s)' % dg, r.stderr[:3000])]
        if r.returncode != 0:
            if len(idx) == 1: return [(cases[idx[0]], 'does not compile', r.stderr[:3000])]
            out = []
            # failing case first: bisect, stop after the first failure
            mid = len(idx) // 2
            for part in (idx[:mid], idx[mid:]):
                out += do(part)
                if any(x[1] != 'ok' for x in out): break
            return out
        p = subprocess.run([exe], capture_output=True, text=True, timeout=60)
        out = []
        for l in p.stdout.split('\n'):
            m = re.match(r'(\d+) (\d)$', l)
            if m: out.append((cases[int(m.group(1))], 'ok' if m.group(2) == '1' else 'mismatch', ''))
        for f in (src, exe):
            try: os.unlink(f)
            except OSError: pass
        return out
    res = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(do, chunks): res += r
    return res

def write_replay(case, status, text, path, prop, extra=''):
    """self-contained program reproducing the mismatch"""
    src, ok = program([case], [0], show=True)
    hdr = '// property %s: %s (C++%s, %s arguments) - %s\n' % (prop, case.conname, case.std, case.origin, status)
    hdr += '// build: g++ -std=c++%s -w -ftemplate-depth-600 -I /repo/include %s%s -o replay && ./replay | c++filt -t\n' % (case.std, ''.join(x + ' ' for x in limits.DEFS + tuple(getattr(case, 'defs', ()))), os.path.basename(path))
    hdr += '// prints "0 1" when the outcome equals the specification, "0 0" when it does not; expected outcome below as case_0::expected\n'
    for l in (extra + '\n' + text).strip().split('\n')[:40]: hdr += '// ' + l + '\n'
    open(path, 'w').write(hdr + src)
