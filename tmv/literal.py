"""C15: BOOST_METAPARSE_STRING.  The macro is expanded by the preprocessor for every configured
maximum length 0..2048 (in the working tree's headers); limits whose expansions agree up to the
number of the limit form one class.  Per class the expansion, applied to a literal of symbolic length
and symbolic characters and to a symbolic limit of the class, is verified against the contracts of
impl::string_at and impl::make_string, which are verified for all lengths."""
import os, re, subprocess, hashlib, json, random, concurrent.futures
import z3
from terms import *
from spec import *
from engine import *
import engine as E_, extract, contracts as K
from fns import LitArr, LitCls

STDS15 = ('11', '14')
MAXL = 2048
HDR = 'boost/metaparse/string.hpp'

# ------------------------------------------------------------------ extraction
def gppE(std, src, path, defs=()):
    open(path, 'w').write(src)
    r = subprocess.run(['g++', '-std=c++' + std, '-E', '-I', os.path.join(extract.REPO, 'include')] + list(defs) + [path], capture_output=True, text=True, errors='surrogateescape')
    if r.returncode: raise extract.ExtractError('preprocessing failed: ' + r.stderr[:800])
    return r.stdout
def probes(text):
    """VNPROBE <limit> <expansion> (the expansion may span lines and line markers)"""
    out = {}
    for m in re.finditer(r'VNPROBE (\d+) (.*?) VNEND', text, re.S):
        out[int(m.group(1))] = ' '.join(l for l in m.group(2).split('\n') if not l.startswith('#')).strip()
    return out
def general(l, x):
    return re.sub(r'<\s*%d\s*>' % l, '<vn_max>', re.sub(r'\s+', ' ', x))

def real(std, work, l):
    """what a translation unit configured with limit l sees: (expansion, text of the headers)"""
    src = '#include <%s>\nVNPROBE %d BOOST_METAPARSE_STRING(vn_L::value) VNEND\n' % (HDR, 32 if l is None else l)
    t = gppE(std, src, os.path.join(work, 'real_%s_%s.cpp' % (std, l)), () if l is None else ['-DBOOST_METAPARSE_LIMIT_STRING_SIZE=%d' % l])
    x = probes(t)[32 if l is None else l]
    ext, body = extract.stitch(t)
    body = '\n'.join(y for y in body.split('\n') if not y.startswith('#'))
    return general(32 if l is None else l, x), hashlib.sha1(body.encode('utf8', 'surrogateescape')).hexdigest()

def prepare(std, work, tier):
    src = '#include <%s>\n' % HDR
    for l in range(MAXL + 1):
        src += '#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\nVNPROBE %d BOOST_METAPARSE_STRING(vn_L::value) VNEND\n' % (l, l)
    text = gppE(std, src, os.path.join(work, 'lits_%s.cpp' % std), ['-DBOOST_METAPARSE_LIMIT_STRING_SIZE=%d' % MAXL])
    ps = probes(text)
    if len(ps) != MAXL + 1: raise extract.ExtractError('the macro could not be expanded for every limit')
    cl = []      # [expansion, lo, hi]
    for l in range(MAXL + 1):
        g = general(l, ps[l])
        if cl and cl[-1][0] == g: cl[-1][2] = l
        else: cl.append([g, l, l])
    notes = []
    ends = sorted({x for c in cl for x in c[1:]}) if tier == 'quick' else list(range(MAXL + 1))
    if len(ends) > 200 and tier == 'quick': ends = ends[:200]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        rs = dict(zip([None] + ends, ex.map(lambda l: real(std, work, l), [None] + ends)))
    base = rs[ends[-1]][1]
    def cls_of(l): return next(c for c in cl if c[1] <= l <= c[2])
    differ = [l for l in rs if rs[l][0] != cls_of(32 if l is None else l)[0] or rs[l][1] != base]
    if len(cl) > 64: raise extract.ExtractError('the expansions fall into too many classes')
    text = gppE(std, '#include <%s>\n' % HDR, os.path.join(work, 'hdr_%s.cpp' % std))
    ext, body = extract.stitch(text)
    body += '\n# 1 "%s/include/vn_probe.hpp"\nnamespace vn {\n' % extract.REPO
    for i, c in enumerate(cl): body += 'template <class vn_L, int vn_max> struct lit_%d : %s {};\n' % (i, c[0])
    body += '}\n'
    tu, out = os.path.join(work, 'lit_%s.cpp' % std), os.path.join(work, 'lit_%s.json' % std)
    open(tu, 'w', errors='surrogateescape').write(''.join('#include <%s>\n' % e for e in extract.EXTRA) + ''.join('#include "%s"\n' % x for x in ext) + body)
    r = subprocess.run([extract.DUMP, '--root', os.path.join(extract.REPO, 'include'), '--in', tu, '--out', out, '-std=c++' + std, '-w', '-x', 'c++', '-I/usr/lib/llvm-18/lib/clang/18/include'],
                       capture_output=True, text=True, errors='replace')
    if r.returncode: raise extract.ExtractError('clang could not parse the expansions: ' + r.stderr[:1500])
    nodef = {l for l in differ}
    info = [{'idx': i, 'lo': c[1], 'hi': c[2], 'ok': not any(c[1] <= (32 if l is None else l) <= c[2] for l in nodef)} for i, c in enumerate(cl)]
    return out, info, len(extract.headers_included(text)), len(rs)

def register(std, info):
    for c in info:
        n = 'BOOST_METAPARSE_STRING[C++%s, limits %d..%d]' % (std, c['lo'], c['hi'])
        con = K.Contract(n, [], None, kind='literal', stds=(std,), style='literal', prop='C15', intercept=False, header=HDR)
        con.lit = c
        con.custom = verify_class
        con.cases = class_cases

# ------------------------------------------------------------------ contracts
LITF = z3.Function('literal', Int, Int)              # character i of the literal
FIRSTN = z3.Function('spec_firstn', Int, IL, IL)     # the first n elements of a list
LITCH = z3.Function('spec_literal_chars', Int, IL)   # the n characters of the literal

def sp_string_at(c, M, arr, n):
    """requires 0 <= n"""
    if not c.cond(I(arr.len) <= I(M) + 1): raise IllFormed('literal too long')
    return z3.If(I(n) < I(arr.len) - 1, LITF(I(n)), z3.IntVal(0))

def verify_string_at(V, con, bounded):
    import verify
    e = V.e
    def fn():
        e.tokmap = {}
        M, Len, n = z3.Int('MaxLen'), z3.Int('Len'), z3.Int('n')
        e.assume(z3.And(M >= 0, M < 2**31 - 1, Len >= 1, Len < 2**31, n >= 0, n < 2**31))
        arr = LitArr(Len)
        import fns
        d = e.prog.fntbyname.get(NS + 'impl::string_at')
        if d is None: raise Unsupported('impl::string_at not found')
        try: code = fns.call_template(e, d, [IntV(M, 'int')], [arr, IntV(n, 'int')])
        except IllFormed as x: code = x
        try: sp = sp_string_at(SymCtx(e), M, arr, n)
        except IllFormed as x: sp = x
        if isinstance(code, IntV): code = T.ICt(z3.IntVal(KINDS.get(code.t, 0)), I(code.v))
        return code, (sp if isinstance(sp, IllFormed) else ic('char', sp))
    yield from paths(V, con.name, fn)

def paths(V, name, fn, compare=None):
    import verify
    e = V.e
    n = 0; V.cur = None
    try:
        for out in e.explore(fn):
            n += 1
            if out[0] == 'ill': yield verify.Result('%s#%d' % (name, n), 'unsupported', 'ill-formed set-up: ' + out[1].why); continue
            st, detail, data = (compare or V.compare)(e, *out[1])
            yield verify.Result('%s#%d' % (name, n), st, detail, data)
    except Unsupported as x:
        yield verify.Result('%s#%d' % (name, n + 1), 'unsupported', str(x))
    if n == 0: yield verify.Result(name, 'unsupported', 'no feasible path (vacuous)')
    else: V.nonvacuous += 1

BLOCKS = (0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512)
def il_of(e, items): return e.reify_ints(items)
def firstn_fact(c, n, l):
    t = FIRSTN(I(n), l)
    c.fact(z3.Implies(I(n) <= 0, t == IL.inil))
    return t
def use_make_string(c, now, rem, cs):
    return T.Str(firstn_fact(c, z3.simplify(I(now) + I(rem)), il_of(c.e, cs)))
def req_make_string(c, now, rem, cs):
    n = z3.simplify(I(now))
    if not z3.is_int_value(n) or n.as_long() not in BLOCKS: return z3.BoolVal(False)
    return z3.And(I(rem) >= 0, z3.Or(n > 0, I(rem) == 0), I(plen(c, cs)) >= n + I(rem))
def plen(c, cs): return K.plen(c, cs)
def verify_make_string(V, con, bounded):
    e = V.e
    for k in BLOCKS:
        def fn():
            e.tokmap = {}
            c = SymCtx(e)
            rem = z3.Int('LenRemaining')
            e.assume(z3.And(rem >= 0, rem < 2**31) if k else rem == 0)
            xs = []
            for i in range(k):
                x = z3.Int('c%d' % i); e.assume(z3.And(x >= -128, x <= 127)); xs.append(IntV(x, 'char'))
            tail = Seg(z3.Const('tail', IL), 'int', 'char')
            e.assume(e.seg_len(tail) >= rem)
            v = e.mk(NS + 'impl::make_string', IntV(k, 'int'), IntV(rem, 'int') if k else IntV(0, 'int'), *(xs + [tail]))
            e.unfolding = (v.key(), None)
            try:
                e.complete(v)
                code = e.reify_val(v)
            except IllFormed as x: code = x
            # by the definition of the first k + rem elements of c0..ck-1 followed by tail
            return code, T.Str(ilist([I(x.v) for x in xs], firstn_fact(c, rem, tail.base)))
        yield from paths(V, '%s{block %d}' % (con.name, k), fn)

class FnCon(K.Contract):
    pass
K.Contract('impl::string_at', [], None, kind='fn', stds=STDS15, style='fn', prop='C15', internal=True, intercept=True)
K.CON['impl::string_at'].custom = verify_string_at
K.CON['impl::string_at'].call = lambda e, targs, args: IntV(ite_term(sp_string_at(SymCtx(e), targs[0].v, args[0], args[1].v)), 'char') if isinstance(args[0], LitArr) and e.entails(I(args[1].v) >= 0) else None
def ite_term(t): return z3.simplify(t)
K.Contract('impl::make_string', ['N:now', 'N:rem', 'CS:cs'], None, use=use_make_string, req=req_make_string, style='meta', stds=STDS15, prop='C15', internal=True)
K.CON['impl::make_string'].custom = verify_make_string

# ------------------------------------------------------------------ the macro
def verify_class(V, con, bounded):
    import verify
    e = V.e
    c = con.lit
    if not c['ok']:
        yield verify.Result(con.name, 'unsupported', 'the headers differ between configurations of the class'); return
    def fn(n=None, L=None):
        e.tokmap = {}
        x = SymCtx(e)
        M = z3.Int('limit') if L is None else L
        if L is None: e.assume(z3.And(M >= c['lo'], M <= c['hi']))
        Len = z3.Int('sizeof_literal') if n is None else n + 1
        if n is None: e.assume(z3.And(Len >= 1, Len < 2**31))
        arr = LitArr(Len)
        v = e.mk('vn::lit_%d' % c['idx'], LitCls(arr), IntV(M, 'int'))
        try:
            e.complete(v)
            code = e.reify_val(v)
        except IllFormed as y: code = y
        if not e.decide(I(Len) <= I(M) + 1): sp = IllFormed('literal too long')
        elif n is None: sp = T.Str(LITCH(z3.simplify(Len - 1)))
        else: sp = T.Str(ilist([LITF(z3.IntVal(i)) for i in range(n)]))
        return code, sp
    def model(e):
        try:
            if e.check() == z3.sat:
                m = e.solver.model()
                n, L = m.eval(z3.Int('sizeof_literal'), True).as_long() - 1, m.eval(z3.Int('limit'), True).as_long()
                return {'case': LitCase(V.prog.std, min(n, L + 8, 2500), L, 'the solver\'s').freeze()}
        except z3.Z3Exception: pass
        return {}
    def compare(e, code, sp):
        if isinstance(code, IllFormed) or isinstance(sp, IllFormed):
            r = V.compare(e, code, sp)
            return r if r[0] != 'refuted' else (r[0], r[1], model(e))
        if is_cons_app(sp, 'Str') and is_cons_app(sp.arg(0), 'spec_literal_chars'):
            n = sp.arg(0).arg(0)
            if is_cons_app(code, 'Str'):
                l = code.arg(0)
                if is_cons_app(l, 'spec_firstn') and e.entails(l.arg(0) == n):
                    # lemma: the first n of a list whose element i is character i for every i < n, and which has at least n elements
                    l = l.arg(1); gs = []
                    while is_cons_app(l, 'icons'):
                        gs.append(l.arg(0) == LITF(z3.IntVal(len(gs)))); l = l.arg(1)
                    if not is_cons_app(l, 'inil'): return 'undecided', 'symbolic list', None
                    if not e.entails(n <= len(gs)): return 'refuted', 'only %d characters are taken from the literal' % len(gs), model_with(e, n > len(gs))
                    bad = z3.Or(*[z3.And(n > i, z3.Not(g)) for i, g in enumerate(gs)]) if gs else z3.BoolVal(False)
                    if e.check(bad) == z3.unsat: return 'discharged', '', None
                    return 'refuted', 'a character differs from the one of the literal', model_with(e, bad)
                if e.entails(n == 0) and is_cons_app(l, 'inil'): return 'discharged', '', None
                if is_cons_app(l, 'inil') or is_cons_app(l, 'icons'):
                    xs = []
                    while is_cons_app(l, 'icons'): xs.append(l.arg(0)); l = l.arg(1)
                    if is_cons_app(l, 'inil') and e.entails(z3.And(n == len(xs), *[x == LITF(z3.IntVal(i)) for i, x in enumerate(xs)])): return 'discharged', '', None
            return 'undecided', 'code gives ' + E_.tshow(code), None
        return V.compare(e, code, sp)
    def model_with(e, f):
        e.solver.push(); e.solver.add(f)
        try: return model(e)
        finally: e.solver.pop()
    if not bounded:
        yield from paths(V, con.name, fn, compare)
        return
    for L in sorted({c['lo'], c['hi'], min(max(32, c['lo']), c['hi'])}):
        ns = sorted(x for x in {0, 1, 2, 3, 5, L - 1, L, L + 1, L // 2, c['lo'] - 1} | set(lens(L)) if 0 <= x <= L + 1)
        for n in ns:
            yield from paths(V, '%s{limit %d, length %d}' % (con.name, L, n), lambda: fn(n, L))

def lens(L):
    out = {0, 1, 2, 3, L, L - 1, L + 1}
    k = 1
    while k <= L + 1:
        out |= {k - 1, k, k + 1, k + k // 2, k + k // 2 + 1, 2 * k - 1}
        k *= 2
    return sorted(x for x in out if 0 <= x <= L + 1)

# ------------------------------------------------------------------ replay
class LitCase:
    """BOOST_METAPARSE_STRING of a literal of n characters under the configured limit L, against the compiler"""
    def __init__(self, std, n, L, origin, seed=1):
        self.std, self.n, self.L, self.origin = std, n, L, origin
        rng = random.Random('%d/%d/%d' % (n, L or -1, seed))
        self.chars = [(i * 7 + n) % 256 if n > 40 else rng.randrange(256) for i in range(n)]
        self.defs = [] if L is None else ['-DBOOST_METAPARSE_LIMIT_STRING_SIZE=%d' % L]
        self.diag = r'(?s)static assertion|too long' if n > (32 if L is None else L) else None
        self.conname, self.hdrs, self.rt = 'BOOST_METAPARSE_STRING', [HDR], False
    def freeze(self): return self
    def emit(self, k):
        lit = ''.join('\\%03o' % x for x in self.chars)
        exp = 'boost::metaparse::v1::string<%s>' % ', '.join('(char)%d' % x for x in self.chars)
        return ('namespace case_%s {\n  template <class T> struct ty { typedef T type; };\n  template <char... C> struct ty<boost::metaparse::v1::string<C...> > { typedef boost::metaparse::v1::string<C...> type; };\n'
                '  typedef ty<BOOST_METAPARSE_STRING("%s")>::type actual;\n  typedef %s expected;\n}\n') % (k, lit, exp)
    @property
    def chunk(self): return 1 if self.n > 300 else 12

def class_cases(con, std, seed, n):
    c = con.lit
    out = []
    for L in sorted({c['lo'], c['hi'], (c['lo'] + c['hi']) // 2}):
        for k in lens(L):
            if k > 300 and n < 100 and k not in (L, L + 1) and k % 128 not in (0, 1, 127): continue
            out.append(LitCase(std, k, L, 'selected', seed))
    if c['lo'] <= 32 <= c['hi']: out += [LitCase(std, k, None, 'default limit', seed) for k in range(0, 34)]
    return out

# ------------------------------------------------------------------ BOOST_METAPARSE_STRING_VALUE
def value_macro(std, work):
    """the macro is an object of the class BOOST_METAPARSE_STRING denotes: (proved, compiled program, diagnostics or None)"""
    inc = '#include <boost/metaparse/string_value.hpp>\n#include <boost/metaparse/string.hpp>\n'
    sq = lambda x: re.sub(r'\s+', '', x)
    proved = False
    try:
        t = probes(gppE(std, inc + '\nVNPROBE 1 BOOST_METAPARSE_STRING(vn_L::value) VNEND\nVNPROBE 2 BOOST_METAPARSE_STRING_VALUE(vn_L::value) VNEND\n', os.path.join(work, 'val_%s.cpp' % std)))
        x, y = sq(t[1]), sq(t[2])
        proved = y in (x + '{}', '(' + x + '{})', x + '()', '(' + x + '())')
    except (extract.ExtractError, KeyError): pass
    rng = random.Random(15)
    lits = [''.join('\\%03o' % (rng.randrange(256) if n % 2 else 97 + i % 26) for i in range(n)) for n in list(range(0, 33))]
    src = inc + 'template <class A, class B> struct same { enum { value = 0 }; };\ntemplate <class A> struct same<A, A> { enum { value = 1 }; };\n'
    src += ''.join('static_assert(same<decltype(BOOST_METAPARSE_STRING_VALUE("%s"))::type, BOOST_METAPARSE_STRING("%s")::type>::value, "%d characters");\n' % (l, l, n) for n, l in enumerate(lits))
    p = os.path.join(work, 'valp_%s.cpp' % std)
    open(p, 'w').write(src)
    r = subprocess.run(['g++', '-std=c++' + std, '-w', '-fsyntax-only', '-I', os.path.join(extract.REPO, 'include'), p], capture_output=True, text=True, errors='replace')
    return proved, src, None if r.returncode == 0 else r.stderr[:3000]
