"""constexpr functions: statements, locals, arrays, pointers, loops."""
import z3
from terms import *
from engine import (Inst, Rec, Sym, Prim, IntV, ArrV, PtrV, PackV, Seg, V, Env, TmplV, IllFormed, Unsupported, PathAbort, I)

class LitArr(V):
    """a string literal: an array of (possibly symbolic) length whose element i is literal(i), the last one 0"""
    __slots__ = ('len',)
    def __init__(self, n): self.len = n
    def mkkey(self): return ('LIT', self.len if isinstance(self.len, int) else keep(self.len).get_id())
class LitCls(V):
    """stands for a class whose static member value is the literal"""
    __slots__ = ('arr',)
    def __init__(self, arr): self.arr = arr
    def mkkey(self): return ('LITC', self.arr.key())
LITF = z3.Function('literal', z3.IntSort(), z3.IntSort())

class Ret(Exception):
    def __init__(self, v): self.v = v
class Exit(Exception):
    """std::exit(v)"""
    def __init__(self, v): self.v = v
class ManipV(V):
    """a stream manipulator"""
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def mkkey(self): return ('MANIP', self.name)
class LoopContract(Exception):
    pass

# ---------------------------------------------------------------- texts: std::string and string streams
# (assumed contracts on the standard library: concatenation, decimal formatting of integers)
class TextV(V):
    __slots__ = ('pieces', 'kind')
    def __init__(self, pieces, kind): self.pieces, self.kind = list(pieces), kind
    def mkkey(self): return ('TX', id(self))
STD = 'std::string and std::ostringstream concatenate characters and format integers in decimal (default locale)'
def dec(n):
    n = z3.simplify(I(n))
    if z3.is_int_value(n): return [ch(ord(c)) for c in str(n.as_long())]
    return [cls('text:decimal', T.ICt(z3.IntVal(KINDS['int']), n))]
def ch(c): return T.ICt(z3.IntVal(KINDS['char']), z3.simplify(I(c)))
def pieces_of(e, x, kind):
    if isinstance(x, TextV):
        if x.kind != 'string': raise Unsupported('inserting a stream')
        return list(x.pieces)
    if isinstance(x, PtrV):
        if x.off != 0: raise Unsupported('text at an offset')
        x = x.arr
    if isinstance(x, ManipV):
        if kind != 'stream': raise Unsupported('manipulator')
        return {'endl': [ch(10)], 'flush': [], 'ends': [ch(0)]}[x.name]
    if isinstance(x, ArrV):
        out = []
        for i, c in enumerate(x.items):
            if isinstance(c, Seg) or not isinstance(c.v, int):
                # a symbolic C string: the characters before the first NUL of the rest
                rest = x.items[i:]
                if e is None or isinstance(rest[-1], Seg) or not isinstance(rest[-1].v, int) or rest[-1].v != 0: raise Unsupported('symbolic C string')
                return out + cstr_pieces(e, e.reify_ints([y if isinstance(y, Seg) else e.cast(y, 'char') for y in rest[:-1]]))
            if c.v == 0: return out
            out.append(ch(c.v))
        raise Unsupported('unterminated text')
    if isinstance(x, IntV):
        if x.t == 'char': return [ch(x.v)]
        if kind == 'stream' and x.t in ('int', 'long', 'short', 'unsigned long', 'unsigned int', 'long long', 'unsigned short', 'unsigned long long'): return dec(x.v)
    raise Unsupported('text of %s' % type(x).__name__)
def cstr_pieces(e, l):
    """the text of the C string with the characters l"""
    l = z3.simplify(l)
    if is_cons_app(l, 'inil') or not is_cons_app(l, 'icons') and e.decide(is_inil(l)): return []
    return [cls('text:cstr', T.Str(l))]
def text_type(e, j, env):
    """'string' | 'stream' | None"""
    while j and j.get('k') in ('qual', 'ref', 'lref', 'rref') and ('t' in j or 'v' in j): j = j.get('t') or j.get('v')
    if not j or j.get('k') != 'tst' or j['t'].get('k') != 'decl': return None
    n = e.prog.decls[j['t']['id']].get('qname', '')
    if n.startswith('std::') and n.endswith('basic_string'): return 'string'
    if n.startswith('std::') and n.endswith(('basic_ostringstream', 'basic_stringstream', 'basic_ostream')): return 'stream'
    return None
def text_op(e, op, a, b):
    e.assumptions_used.add(STD)
    if op == '<<' and isinstance(a, TextV) and a.kind == 'stream':
        a.pieces += pieces_of(e, b, 'stream'); return a
    if op == '+': return TextV(pieces_of(e, a, 'string') + pieces_of(e, b, 'string'), 'string')
    if op == '+=' and isinstance(a, TextV) and a.kind == 'string':
        a.pieces += pieces_of(e, b, 'string'); return a
    if op == '=' and isinstance(a, TextV) and a.kind == 'string':
        a.pieces = pieces_of(e, b, 'string'); return a
    if op == ',': return b
    raise Unsupported('operator %s on text' % op)
def text_make(e, kind, args):
    e.assumptions_used.add(STD)
    if not args: return TextV([], kind)
    if len(args) == 1:
        if isinstance(args[0], IntV): raise Unsupported('text from a number')
        return TextV(pieces_of(e, args[0], kind), kind)
    if len(args) == 2 and kind == 'string' and isinstance(args[0], IntV) and isinstance(args[0].v, int) and isinstance(args[1], IntV) and args[1].t == 'char':
        return TextV([ch(args[1].v)] * args[0].v, kind)
    raise Unsupported('constructor of a text')
def memcall(e, obj, name, args):
    if isinstance(obj, TextV):
        if name == 'str' and not args and obj.kind == 'stream': return TextV(obj.pieces, 'string')
        if obj.kind == 'string':
            if name == 'append' and len(args) == 1 or name == 'push_back': return text_op(e, '+=', obj, args[0])
            if name == 'append' and len(args) == 2: return text_op(e, '+=', obj, text_make(e, 'string', args))
            if name in ('c_str', 'data', 'reserve'): return obj
    raise Unsupported('member call ' + name)
def text_term(x):
    if not isinstance(x, TextV):
        if isinstance(x, ArrV): return T.SeqT(tlist(pieces_of(None, x, 'string')))
        raise Unsupported('not a text')
    return T.SeqT(tlist(x.pieces))

def env_locals(env, loc):
    return Env(env.levels, env.chain, loc)

def unop(e, j, env):
    op = j['op']
    if op == '*':
        p = e.expr(j['e'], env)
        return deref(e, p)
    if op in ('++', '--'):
        tgt = j['e']
        if tgt['k'] != 'local': raise Unsupported('++ on ' + tgt['k'])
        old = env.locals[tgt['name']]
        d = 1 if op == '++' else -1
        if isinstance(old, PtrV): new = PtrV(old.arr, padd(old.off, d))
        else: new = IntV(old.v + d, old.t)
        env.locals[tgt['name']] = new
        return old if j.get('post') else new
    if op == '&':
        x = j['e']
        if x['k'] == 'index':
            a = e.expr(x['a'], env); i = e.expr(x['i'], env)
            if isinstance(a, ArrV): return PtrV(a, i.v)
            if isinstance(a, PtrV): return PtrV(a.arr, padd(a.off, i.v))
    raise Unsupported('unary ' + op)

def padd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return z3.simplify(I(a) + I(b))

def assign(e, j, env):
    tgt = j['a']
    if tgt['k'] == 'local' and isinstance(env.locals.get(tgt['name']), TextV):
        return text_op(e, j['op'], env.locals[tgt['name']], e.expr(j['b'], env))
    if tgt['k'] != 'local': raise Unsupported('assignment to ' + tgt['k'])
    v = e.expr(j['b'], env)
    op = j['op']
    old = env.locals[tgt['name']] if op != '=' else None
    if op in ('|=', '&=') and isinstance(old, IntV) and old.t == 'bool' and isinstance(v, IntV) and (op == '|=' or v.t == 'bool' or bit(v.v)):
        a, b = (z3.BoolVal(x) if isinstance(x, bool) else x for x in (e.truth(old), e.truth(v)))
        v = IntV(z3.simplify(z3.Or(a, b) if op == '|=' else z3.And(a, b)), 'bool')
    elif op != '=':
        v = e.binop(op[:-1], env.locals[tgt['name']], v)
    old = env.locals.get(tgt['name'])
    if isinstance(old, IntV) and isinstance(v, IntV): v = e.cast(v, old.t)
    env.locals[tgt['name']] = v
    return v

def bit(x):
    return isinstance(x, int) and x in (0, 1) or z3.is_expr(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and bit(x.arg(1).as_long() if z3.is_int_value(x.arg(1)) else None) \
        and bit(x.arg(2).as_long() if z3.is_int_value(x.arg(2)) else None)

def elem(e, arr, n):
    """n-th element (concrete n)"""
    items = list(arr.items)
    k = 0
    while True:
        if not items: e.ill('array index out of range in a constant expression')
        x = items[0]
        if isinstance(x, Seg):
            if e.decide(e.seg_isnil(x)): items = items[1:]
            else: items = [e.seg_hd(x), e.seg_tl(x)] + items[1:]
            continue
        if k == n: return x
        items = items[1:]; k += 1

def deref(e, p):
    if isinstance(p, ArrV): return elem(e, p, 0)
    if not isinstance(p, PtrV): raise Unsupported('dereference')
    if not isinstance(p.off, int):
        ls = getattr(e, 'loop_suffix', None)
        if ls and len(p.arr.items) == 1 and ls[1].seg_in(p.arr) and I(p.off).eq(ls[0]):
            k, L = ls
            if not e.entails(z3.And(k >= 0, k < L.length)): raise Unsupported('dereference not proved in bounds')
            sg = p.arr.items[0]
            return e.seg_hd(Seg(L.suffix(k), sg.kind, sg.ct, sg.role, sg.fmap, sg.fkey))
        raise Unsupported('dereference at a symbolic offset')
    if p.off < 0: e.ill('negative array index')
    return elem(e, p.arr, p.off)

def index(e, a, i):
    if not isinstance(i, IntV): raise Unsupported('index')
    if isinstance(a, LitArr):
        if not e.decide(z3.And(I(i.v) >= 0, I(i.v) < I(a.len))): e.ill('literal indexed out of range in a constant expression')
        if e.decide(I(i.v) == I(a.len) - 1): return IntV(0, 'char')
        t = z3.simplify(LITF(I(i.v)))
        e.assume(z3.And(t >= -128, t <= 127))
        return IntV(t, 'char')
    if isinstance(a, ArrV): a = PtrV(a, 0)
    return deref(e, PtrV(a.arr, padd(a.off, i.v)))

def alen(e, arr):
    n = 0
    for x in arr.items:
        if isinstance(x, Seg): n = n + e.seg_len(x)
        else: n = n + 1
    return n

def ptrop(e, op, a, b):
    if isinstance(a, ArrV): a = PtrV(a, 0)
    if isinstance(b, ArrV): b = PtrV(b, 0)
    if op == '+' and isinstance(a, PtrV): return PtrV(a.arr, padd(a.off, b.v))
    if op == '+' and isinstance(b, PtrV): return PtrV(b.arr, padd(b.off, a.v))
    if op == '-' and isinstance(a, PtrV) and isinstance(b, IntV): return PtrV(a.arr, padd(a.off, -b.v if isinstance(b.v, int) else -I(b.v)))
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.arr == b.arr:
        x, y = IntV(a.off, 'long'), IntV(b.off, 'long')
        if op in ('==', '!=', '<', '<=', '>', '>=', '-'): return e.binop(op, x, y)
    raise Unsupported('pointer operation ' + op)

def stmts(e, v, env):
    for s in v: stmt(e, s, env)

def stmt(e, s, env):
    if s is None: return
    k = s['k']
    if k == 'block': stmts(e, s['v'], env)
    elif k in ('null', 'typedef'): pass      # (names of types are resolved by the front end)
    elif k == 'return':
        raise Ret(e.expr(s['e'], env) if s.get('e') else None)
    elif k == 'decls':
        for d in s['v']: stmt(e, d, env)
    elif k == 'var':
        init = s.get('init')
        if init is None: env.locals[s['name']] = None; return
        x = e.expr(init, env)
        if isinstance(x, TextV) and s['t'].get('k') in ('lref', 'rref'): pass      # an alias
        elif text_type(e, s['t'], env): x = TextV(x.pieces, x.kind) if isinstance(x, TextV) else text_make(e, text_type(e, s['t'], env), [x])
        tn = e.tyname(s['t'])
        if isinstance(x, IntV) and tn != '?': x = e.cast(x, tn)
        if isinstance(x, ArrV) and s['t']['k'] == 'ptr' : x = PtrV(x, 0)
        env.locals[s['name']] = x
    elif k == 'if':
        if e.decide(e.truth(e.expr(s['c'], env))): stmt(e, s['a'], env)
        else: stmt(e, s.get('b'), env)
    elif k == 'break': raise Break()
    elif k == 'continue': raise Continue()
    elif k in ('for', 'while', 'do'): loop(e, s, env)
    elif k == 'forrange': forrange(e, s, env)
    elif k == 'static_assert':
        if not e.decide(e.truth(e.expr(s['e'], env))): e.ill('static assertion failed in a function')
    elif k == 'expr': e.expr(s['e'], env)
    else: raise Unsupported('statement ' + k)

class Break(Exception): pass
class Continue(Exception): pass
def body(e, s, env):
    """False when the loop is left by break"""
    try: stmt(e, s['body'], env)
    except Break: return False
    except Continue: pass
    return True

def seglist(arr):
    return arr.items[-1] if arr.items and isinstance(arr.items[-1], Seg) else None

def loop(e, s, env):
    if s.get('init'): stmt(e, s['init'], env)
    L = e.loop_contract
    if s['k'] != 'do' and L is not None and not e.decide(e.seg_isnil(L.seg)): return inv_loop(e, s, env, L)
    it = 0
    while True:
        if s.get('c') and not (s['k'] == 'do' and it == 0):
            if not e.decide(e.truth(e.expr(s['c'], env))): break
        if not body(e, s, env): break
        if s.get('inc'): e.expr(s['inc'], env)
        it += 1
        if it > 64: raise Unsupported('loop without a contract')

def flagged(e, env, written, L):
    """the invariant, in terms of the (boolean) flag the loop maintains, if there is one"""
    fl = [n for n, v in env.locals.items() if n in written and isinstance(v, IntV) and v.t == 'bool' and (isinstance(v.v, int) or z3.is_true(v.v) or z3.is_false(v.v))]
    if len(fl) != 1 or not hasattr(L, 'acc'): return L.inv, []
    n, = fl
    up = not e.truth(env.locals[n]) if isinstance(env.locals[n].v, int) else z3.is_false(env.locals[n].v)
    def inv(k):
        t = e.truth(env.locals[n]); t = z3.BoolVal(t) if isinstance(t, bool) else t
        return L.acc(k, t if up else z3.Not(t))
    return inv, fl

def inv_loop(e, s, env, L):
    """Hoare rule for a counting loop over a symbolic array, with the invariant of the contract"""
    counters = {}
    for n, v in env.locals.items():
        if isinstance(v, PtrV) and v.off == 0 and L.seg_in(v.arr) or isinstance(v, IntV) and v.v == 0 and v.t != 'bool': counters[n] = v
    k0 = z3.IntVal(0)
    for f in L.facts(k0): e.assume(f)
    inv, flags = flagged(e, env, assigned(s), L)
    if not e.entails(inv(k0)): raise Unsupported('loop invariant does not hold initially')
    k = z3.Int('loop!k')
    keep(k)
    e.assume(z3.And(k >= 0, k <= L.length))
    for f in L.facts(k): e.assume(f)
    for n in flags: env.locals[n] = IntV(keep(z3.Bool('loop!' + n)), 'bool')
    e.assume(inv(k))
    written = assigned(s) - set(flags)
    before = {}
    for n, v in list(env.locals.items()):
        if n in written:
            if n not in counters: raise Unsupported('loop writes %s, which the invariant does not describe' % n)
            env.locals[n] = PtrV(v.arr, k) if isinstance(v, PtrV) else IntV(k, v.t)
        before[n] = env.locals[n]
    e.loop_suffix = (k, L)
    if s.get('c') and not e.decide(e.truth(e.expr(s['c'], env))): return
    if not body(e, s, env): return
    if s.get('inc'): e.expr(s['inc'], env)
    for f in L.facts(k + 1): e.assume(f)
    for n, v in before.items():
        if n not in written: continue
        w = env.locals[n]
        off = lambda z: I(z.off) if isinstance(z, PtrV) else I(z.v)
        if not e.entails(off(w) == k + 1): raise Unsupported('loop step does not advance %s by one' % n)
    if not e.entails(z3.And(k + 1 <= L.length, inv(k + 1))): raise Unsupported('loop invariant is not preserved')
    raise PathAbort()

def assigned(s):
    out = set()
    def w(o):
        if isinstance(o, dict):
            if o.get('k') == 'binop' and o.get('op') in ('=', '+=', '-=', '*=', '|=', '&=') and o['a']['k'] == 'local': out.add(o['a']['name'])
            if o.get('k') == 'unop' and o.get('op') in ('++', '--') and o['e']['k'] == 'local': out.add(o['e']['name'])
            for v in o.values(): w(v)
        elif isinstance(o, list):
            for v in o: w(v)
    w([s.get('c'), s.get('inc'), s['body']])
    return out

def forrange(e, s, env):
    rng = e.expr(s['range'], env)
    if not isinstance(rng, ArrV): raise Unsupported('range for')
    items = list(rng.items)
    L = e.loop_contract
    if L is not None and len(items) == 1 and L.seg_in(rng) and not e.decide(e.seg_isnil(L.seg)) and not (assigned(s) & set(env.locals) - set(flagged(e, env, assigned(s), L)[1])):
        sg = items[0]
        k = z3.Int('loop!k'); k0 = z3.IntVal(0)
        for f in L.facts(k0) + L.facts(k) + L.facts(k + 1): e.assume(f)
        inv, flags = flagged(e, env, assigned(s), L)
        if not e.entails(inv(k0)): raise Unsupported('loop invariant does not hold initially')
        for n in flags: env.locals[n] = IntV(keep(z3.Bool('loop!' + n)), 'bool')
        e.assume(z3.And(k >= 0, k <= L.length)); e.assume(inv(k))
        if e.decide(k == L.length): return
        env.locals[s['var']] = e.seg_hd(Seg(L.suffix(k), sg.kind, sg.ct, sg.role, sg.fmap, sg.fkey))
        if not body(e, s, env): return
        if not e.entails(inv(k + 1)): raise Unsupported('loop invariant is not preserved')
        raise PathAbort()
    it = 0
    while True:
        while items and isinstance(items[0], Seg):
            if e.decide(e.seg_isnil(items[0])): items = items[1:]
            else: items = [e.seg_hd(items[0]), e.seg_tl(items[0])] + items[1:]
        if not items: break
        env.locals[s['var']] = items[0]
        items = items[1:]
        if not body(e, s, env): break
        it += 1
        if it > 64: raise Unsupported('loop without a contract')

def run(e, f, env, args):
    loc = {}
    for p, a in zip(f['params'], args):
        tn = e.tyname(p['t'])
        if isinstance(a, IntV) and tn != '?': a = e.cast(a, tn)
        if isinstance(a, TextV) and a.kind == 'string' and p['t'].get('k') not in ('lref', 'rref'): a = TextV(a.pieces, a.kind)
        loc[p['name']] = a
    env = env_locals(env, loc)
    try:
        stmt(e, f['body'], env)
    except Ret as r:
        v = r.v
        if text_type(e, f['ret'], env) == 'string' and not isinstance(v, TextV): v = text_make(e, 'string', [v])
        tn = e.tyname(f['ret'])
        if isinstance(v, IntV) and tn != '?': v = e.cast(v, tn)
        return v
    if f['ret'] == {'k': 'builtin', 'n': 'void'}: return None
    raise Unsupported('function without return value')

def stdout_of(e):
    """the text on std::cout on the current path"""
    if getattr(e, 'stdout', None) is None: e.stdout = TextV([], 'stream')
    return e.stdout
def construct(e, v):
    """default-construct an object of class v for its effect on standard output -> the text, then how it ended"""
    e.stdout = None
    end = 'returned'
    try: ctor(e, v)
    except Exit as x:
        if not isinstance(x.v, IntV): raise Unsupported('exit status')
        end = 'exited'
        if not e.decide(I(x.v.v) == 0): end = 'exited with an error status'
    return T.SeqT(tlist(stdout_of(e).pieces + [cls('end:' + end)]))
def ctor(e, v):
    if not isinstance(v, (Inst, Rec)): raise Unsupported('constructor of an unknown class')
    rid, env = e.select(v)
    d = e.prog.decls[rid]
    for b in e.bases(v, rid, env): ctor(e, b)
    cs = [m for m in d['members'] if m['k'] == 'fn' and m['f'].get('ctor')]
    if any(m['k'] == 'var' and not m.get('static') or m['k'] == 'other' for m in d['members']): raise Unsupported('data members')
    for m in d['members']:
        if m['k'] == 'fntmpl' and m['f'].get('ctor'): raise Unsupported('constructor template')
    if not cs: return
    cs = [m for m in cs if not m['f']['params']]
    if len(cs) != 1 or 'body' not in cs[0]['f']: raise Unsupported('constructor')
    run(e, cs[0]['f'], env, [])

def call(e, j, env):
    args = [e.expr(a, env) for a in j['args'] if a.get('k') != 'defaultarg']
    f = j['f']
    k = f['k']
    if k == 'depmember' and 'obj' in f: return memcall(e, e.expr(f['obj'], env), f['name'], args)
    if k == 'fn' and 'q' in f:
        f = {'k': 'depref', 'q': f['q'], 'name': f['mname']}
        k = 'depref'
    if k == 'fnlookup' and f.get('cands') and all(e.prog.decls.get(x, {}).get('kind') == 'fntmpl' for x in f['cands']):
        if len(f['cands']) != 1: raise Unsupported('overloaded function template')
        return call_template(e, e.prog.decls[f['cands'][0]], e.args(f.get('targs') or [], env), args, True)
    if f.get('name') in ('exit', 'std::exit', '::exit') and not f.get('cands'):
        e.assumptions_used.add('std::exit ends the program after flushing standard output')
        raise Exit(args[0])
    if k in ('fn', 'fnlookup'):
        d = e.prog.fnbyname.get(f.get('name'))
        if d is None: raise Unsupported('call of %s' % f.get('name'))
        return run(e, d['f'], Env((), {}), args)
    if k == 'depref':
        q = e.ty(f['q'], env)
        if f['name'] == 'get_value' and not args and isinstance(q, Sym): return TextV([cls('text:of', q.t)], 'string')
        r = e.find(q, f['name'])
        if r is None: e.ill('no member function ' + f['name'])
        if r[0] == 'val' and not args: return r[1]() if callable(r[1]) else r[1]
        if r[0] != 'fn': raise Unsupported('call of ' + r[0])
        y, fenv, owner = r[1]
        if y['k'] != 'fn' or 'f' not in y: raise Unsupported('call of member template')
        return run(e, y['f'], fenv, args)
    raise Unsupported('call through ' + k + ' ' + str(f)[:200])

def call_template(e, d, targs, args, use=False):
    """call of a namespace-scope function template: explicit arguments, then deduction from the call"""
    if use and e.contracts is not None and d['qname'] not in e.disabled_fns():
        con = e.contracts.get(d['qname'])
        if con is not None and con.style == 'fn' and con.applies_std(e.std):
            r = con.call(e, targs, args)
            if r is not None:
                e.used_contracts.add(con.name)
                return r
    ps = d['params']
    b = {}
    for i, a in enumerate(targs): b[i] = e.conv(a, e.tyname(ps[i]['t'])) if ps[i]['k'] == 'int' else a
    def deduce(t, a):
        k = t['k']
        if k in ('lref', 'rref', 'qual'): return deduce(t['v'], a)
        if k == 'parm':
            if t['i'] in b: return
            if isinstance(a, IntV): b[t['i']] = Prim(a.t); return
            raise Unsupported('deduction from ' + type(a).__name__)
        if k == 'array' and isinstance(a, (LitArr, ArrV)):
            n = a.len if isinstance(a, LitArr) else alen(e, a)
            x = t.get('e')
            if isinstance(x, dict) and x['k'] == 'parm' and x['i'] not in b: b[x['i']] = IntV(n, e.tyname(ps[x['i']]['t']))
            el = t['v']
            while el['k'] == 'qual': el = el['v']
            if el['k'] == 'parm': b.setdefault(el['i'], Prim('char'))
            return
        if k in ('builtin', 'ptr'): return
        raise Unsupported('deduction against ' + k)
    for p, a in zip(d['f']['params'], args): deduce(p['t'], a)
    lv = []
    for i, p in enumerate(ps):
        if i not in b: raise Unsupported('undeduced function template parameter')
        lv.append(b[i])
    return run(e, d['f'], Env((tuple(lv),), {}), args)
