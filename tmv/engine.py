"""Symbolic evaluator for C++ class templates (the executable semantics against
which contracts are discharged).  It interprets the JSON AST extracted from
/repo; template arguments may be symbolic z3 terms, and every choice that
depends on them (specialisation matching, conditions) forks the path."""
import z3, json, sys, time
from terms import *

sys.setrecursionlimit(200000)

class IllFormed(Exception):
    def __init__(self, why, trace=()):
        Exception.__init__(self, why)
        self.why = why
        self._trace = trace
    @property
    def trace(self): return [t() if callable(t) else t for t in self._trace]
def LazyTrace(e, vs): return [lambda v=v: e.show(v) for v in vs]
def tshow(t, n=24):
    left = [n]
    def go(t):
        left[0] -= 1
        if left[0] < 0: return '..'
        if not z3.is_app(t): return '?'
        if t.num_args() == 0: return str(t)
        return '%s(%s)' % (t.decl().name(), ','.join(go(t.arg(i)) for i in range(t.num_args())))
    return go(t)
class Unsupported(Exception):
    pass
class PathAbort(Exception):
    """current path is infeasible"""

# ---------------------------------------------------------------- values
class V:
    __slots__ = ('_key',)
    def key(self):
        try:
            return self._key
        except AttributeError:
            self._key = self.mkkey()
            return self._key
    def __eq__(self, o): return isinstance(o, V) and self.key() == o.key()
    def __hash__(self): return hash(self.key())

class Inst(V):
    __slots__ = ('tid', 'parent', 'args')
    def __init__(self, tid, parent, args):
        self.tid, self.parent, self.args = tid, parent, tuple(args)
    def mkkey(self): return ('I', self.tid, self.parent.key() if self.parent else None, tuple(a.key() for a in self.args))
class Rec(V):
    __slots__ = ('rid', 'parent')
    def __init__(self, rid, parent=None): self.rid, self.parent = rid, parent
    def mkkey(self): return ('R', self.rid, self.parent.key() if self.parent else None)
class Sym(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = keep(t)
    def mkkey(self): return ('S', self.t.get_id())
class Prim(V):
    __slots__ = ('s', 'sub')
    def __init__(self, s, sub=None): self.s, self.sub = s, sub
    def mkkey(self): return ('P', self.s, self.sub.key() if self.sub else None)
class App(V):
    """f::apply<args...> for a symbolic metafunction class f"""
    __slots__ = ('f', 'args')
    def __init__(self, f, args): self.f, self.args = keep(f), tuple(args)
    def mkkey(self): return ('A', self.f.get_id(), tuple(a.key() for a in self.args))
class CApp(V):
    """apply<args...> of a class under contract"""
    __slots__ = ('inst', 'con', 'args', 'real')
    def __init__(self, inst, con, args, real): self.inst, self.con, self.args, self.real = inst, con, tuple(args), real
    def mkkey(self): return ('C', self.inst.key(), tuple(a.key() for a in self.args))
class Lazy(V):
    """result of a built-in metafunction: a class whose ::type is val"""
    __slots__ = ('val', 'inherit', 'name')
    def __init__(self, val, inherit=False, name='lazy'): self.val, self.inherit, self.name = val, inherit, name
    def mkkey(self): return ('L', self.name, self.val.key())
class MSeq(V):
    __slots__ = ('flavour', 'items')
    def __init__(self, flavour, items): self.flavour, self.items = flavour, tuple(items)
    def mkkey(self): return ('M', self.flavour, tuple(i.key() for i in self.items))
class MMap(V):
    __slots__ = ('pairs',)
    def __init__(self, pairs): self.pairs = tuple(pairs)
    def mkkey(self): return ('MM', tuple((a.key(), b.key()) for a, b in self.pairs))
class MIter(V):
    """iterator into a built-in sequence"""
    __slots__ = ('seq', 'n')
    def __init__(self, seq, n): self.seq, self.n = seq, n
    def mkkey(self): return ('MI', self.seq.key(), self.n)
class IntV(V):
    __slots__ = ('v', 't')
    def __init__(self, v, t):
        if not isinstance(v, (int, bool)):
            keep(v)
            if z3.is_int_value(v): v = v.as_long()
            elif z3.is_true(v): v = 1
            elif z3.is_false(v): v = 0
        if isinstance(v, bool): v = int(v)
        self.v, self.t = v, t
    def mkkey(self): return ('N', self.v if isinstance(self.v, int) else ('z', self.v.get_id()), self.t)
    def concrete(self): return isinstance(self.v, int)
class TmplV(V):
    __slots__ = ('tid', 'parent')
    def __init__(self, tid, parent=None): self.tid, self.parent = tid, parent
    def mkkey(self): return ('T', self.tid, self.parent.key() if self.parent else None)
class SymTmpl(V):
    """symbolic template template argument: instances are free constructors"""
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def mkkey(self): return ('ST', self.name)
class SymApply(V):
    __slots__ = ('t',)
    def __init__(self, t): self.t = keep(t)
    def mkkey(self): return ('SA', self.t.get_id())
class CTmpl(V):
    __slots__ = ('inst', 'con', 'real')
    def __init__(self, inst, con, real): self.inst, self.con, self.real = inst, con, real
    def mkkey(self): return ('CT', self.inst.key())
class PackV(V):
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def mkkey(self): return ('PK', tuple(i.key() for i in self.items))
class Seg(V):
    """symbolic segment of a parameter pack: list term + optional element map"""
    __slots__ = ('base', 'kind', 'ct', 'role', 'fmap', 'fkey')
    def __init__(self, base, kind, ct=None, role=None, fmap=None, fkey=None):
        self.base, self.kind, self.ct, self.role, self.fmap, self.fkey = keep(base), kind, ct, role, fmap, fkey
    def mkkey(self): return ('SG', self.base.get_id(), self.kind, self.ct, self.fkey)
    def isint(self): return self.base.sort().eq(IL)
class ArrV(V):
    """array value (constexpr / static data)"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def mkkey(self): return ('AR', tuple(i.key() for i in self.items))
class PtrV(V):
    """pointer into an array: remaining suffix"""
    __slots__ = ('arr', 'off')
    def __init__(self, arr, off): self.arr, self.off = arr, off
    def mkkey(self): return ('PT', self.arr.key(), self.off if isinstance(self.off, int) else ('z', keep(self.off).get_id()))

def bit_and(x, m):
    """x & m, m a known integer, two's complement"""
    if m < 0: return x - bit_and(x, ~m)
    r, i = z3.IntVal(0), 0
    while m >> i:
        if not (m >> i) & 1: i += 1; continue
        w = 0
        while (m >> (i + w)) & 1: w += 1
        r = r + (x / (1 << i)) % (1 << w) * (1 << i)
        i += w
    return r

def pure(j):
    """no side effect, and nothing that could fail at run time"""
    if isinstance(j, list): return all(pure(x) for x in j)
    if not isinstance(j, dict): return True
    if j.get('k') in ('index', 'call', 'opcall', 'memcall', 'fncall'): return False
    if j.get('k') == 'unop' and j.get('op') in ('*', '++', '--'): return False
    if j.get('k') == 'binop' and j.get('op') in ('=', '+=', '-=', '*=', '|=', '&=', '/', '%'): return False
    return all(pure(x) for x in j.values())

class Env:
    __slots__ = ('levels', 'chain', 'locals', '_k')
    def __init__(self, levels, chain, locals=None):
        self.levels, self.chain, self.locals = levels, chain, locals
    def key(self):
        try: return self._k
        except AttributeError:
            self._k = (tuple(tuple(a.key() if a is not None else None for a in l) for l in self.levels))
            return self._k
    def with_arg(self, subst):
        """override pack params by single elements: subst {(d,i): Arg}"""
        ls = [list(l) for l in self.levels]
        for (d, i), a in subst.items():
            ls[d][i] = a
        return Env(tuple(tuple(l) for l in ls), self.chain, self.locals)

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path_or_json, std):
        d = path_or_json if isinstance(path_or_json, dict) else json.load(open(path_or_json))
        self.std = std
        self.decls = {int(k): v for k, v in d['decls'].items()}
        self.names = d['names']
        self.byname = {}
        self.recbyname = {}
        self.fnbyname = {}
        self.fntbyname = {}
        for i, x in self.decls.items():
            if x.get('qname', '').startswith('mpl_::'): x['qname'] = 'boost::mpl::' + x['qname'][6:]
            if x['kind'] in ('classtemplate', 'aliastemplate') and not x.get('parent'):
                self.byname.setdefault(x['qname'], i)
            if x['kind'] == 'fntmpl': self.fntbyname.setdefault(x['qname'], x)
            if x['kind'] == 'fn': self.fnbyname.setdefault(x['qname'], x)
            if x['kind'] == 'record' and 'template' not in x and not x.get('parent'):
                self.recbyname.setdefault(x['qname'], i)
        for n in self.names:
            if n.get('k') == 'typedef':
                pass
        self.typedefs = {n['name']: n['t'] for n in self.names if n.get('k') == 'typedef'}
        self.usings = {n['name']: n['using'] for n in self.names if 'using' in n}
        self.patmem = {}
        for i, x in self.decls.items():
            if x['kind'] == 'record' and x.get('complete'):
                m = {}
                for y in x['members']:
                    if y['k'] == 'enum':
                        prev = None
                        for c in y['v']:
                            m[c['name']] = {'k': 'enumc', 'name': c['name'], 'init': c.get('init'), 'prev': prev}
                            prev = c['name']
                    elif 'name' in y:
                        if y['name'] in m and y['k'] == 'fn':
                            continue
                        m[y['name']] = y
                self.patmem[i] = m
        for i, x in self.decls.items():
            if x['kind'] == 'classtemplate':
                ps = x['params']
                for rp in x.get('redecl_params', ()):
                    for a, b in zip(ps, rp):
                        if 'def' not in a and 'def' in b:
                            a['def'] = b['def']

    def packs_in(self, j):
        """pack parameters referenced (unexpanded) in a JSON pattern"""
        key = id(j)
        c = self.__dict__.setdefault('_pk', {})
        if key in c: return c[key]
        out = []
        def w(o):
            if isinstance(o, dict):
                if o.get('k') == 'parm' and o.get('pack'):
                    t = (o['d'], o['i'])
                    if t not in out: out.append(t)
                    return
                if o.get('k') in ('expand', 'sizeofpack', 'tmplexpand'): return
                for v in o.values(): w(v)
            elif isinstance(o, list):
                for v in o: w(v)
        w(j)
        c[key] = out
        return out

SIGNED = {'int': 31, 'char': 7, 'long': 63, 'short': 15, 'signed char': 7, 'long long': 63, 'wchar_t': 31}
UNSIGNED = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8, 'unsigned long long': 64, '__size_t': 64}
RANK = {'bool': 0, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 3, 'unsigned int': 4, 'wchar_t': 3,
        'long': 5, 'unsigned long': 6, 'long long': 7, 'unsigned long long': 8}

NS = 'boost::metaparse::v1::'
CHARF = {}

class Engine:
    """Evaluation along one path."""
    def __init__(self, prog, contracts=None, z3_timeout=5000):
        self.prog = prog
        self.std = prog.std
        self.contracts = contracts
        self.z3_timeout = z3_timeout
        self.stats = {'decisions': 0, 'solver_calls': 0, 'solver_time': 0.0, 'insts': 0}
        self.base_facts = []
        self.roles = {}
        self.loc_used = set()
        self.used_contracts = set()
        self.assumptions_used = set()
        self.disabled = set()          # contracts demoted to inlining
        self.target = None
        self.max_depth = 260
        self.deadline = None
        import mpl
        self.mpl = mpl
        self.typeb = mpl.TYPES
        self.reset([])

    # ------------------------------------------------------------ path state
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.log = []
        self.pending = []
        self.pc = []
        self.dcache = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.z3_timeout)
        for f in self.base_facts:
            self.solver.add(f)
        self.factset = set()
        self.charset = set()
        self.sel_cache = {}
        self.mem_cache = {}
        self.completed = set()
        self.inprog = []
        self.depth = 0
        self.spec_unfold = {}
        self.unfolding = None
        self.tdcons = None
        self.merge_memo = {}
        self.tokmap = {}
        self.classes = {}       # reified class -> the class
        self.loop_contract = None

    def assume(self, f):
        if z3.is_true(f): return
        keep(f)
        if f.get_id() in self.factset: return
        self.factset.add(f.get_id())
        self.pc.append(f)
        self.solver.add(f)

    def check(self, *fs):
        import time
        t = time.time()
        self.stats['solver_calls'] += 1
        if self.deadline and t > self.deadline: raise Unsupported('time limit')
        r = self.solver.check(*fs)
        self.stats['solver_time'] += time.time() - t
        if self.record is not None and r == z3.unsat: self.record_unsat(fs)
        return r

    record = None
    def record_unsat(self, fs):
        """keeps a sample of the solver's verdicts for a second solver (reservoir)"""
        self.record['seen'] += 1
        k = self.record['rng'].randrange(self.record['seen'])
        if len(self.record['smt']) >= self.record['keep'] and k >= self.record['keep']: return
        s = z3.Solver(); s.add(*self.solver.assertions()); s.add(*fs)
        text = s.to_smt2()
        if len(self.record['smt']) < self.record['keep']: self.record['smt'].append(text)
        else: self.record['smt'][k] = text

    def decide(self, c):
        if isinstance(c, (bool, int)): return bool(c)
        c0 = c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        neg = False
        while z3.is_not(c):
            c = c.arg(0); neg = not neg
        keep(c)
        i = c.get_id()
        if i in self.dcache: return self.dcache[i] != neg
        s = z3.simplify(c)
        if z3.is_true(s) or z3.is_false(s):
            r = z3.is_true(s)
            self.dcache[i] = r
            return r != neg
        keep(s)
        if s.get_id() in self.dcache:
            r = self.dcache[s.get_id()]
            self.dcache[i] = r
            return r != neg
        n = len(self.log)
        if n < len(self.prefix):
            r = self.prefix[n]
        else:
            self.stats['decisions'] += 1
            rt = self.check(c)
            if rt == z3.unsat:
                r = False
            else:
                rf = self.check(z3.Not(c))
                if rf == z3.unsat:
                    r = True
                else:
                    r = True
                    self.pending.append(self.log + [False])
        self.log.append(r)
        self.dcache[i] = r
        self.dcache[s.get_id()] = r
        f = c if r else z3.Not(c)
        self.pc.append(f)
        self.solver.add(f)
        return r != neg

    def entails(self, c):
        if isinstance(c, bool): return c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(z3.Not(c)) == z3.unsat

    def explore(self, fn, max_paths=4000):
        """run fn on every path; yields (engine state, outcome)"""
        work = [[]]
        n = 0
        while work:
            p = work.pop()
            self.reset(p)
            try:
                out = ('ok', fn())
            except IllFormed as e:
                out = ('ill', e)
            except PathAbort:
                out = None
            work.extend(self.pending)
            n += 1
            if n > max_paths:
                raise Unsupported('too many paths')
            if out is not None:
                yield out

    def summarise(self, fn, max_paths=400):
        """merge all sub-paths of fn (returning a T term) into one ite term"""
        saved = dict(self.__dict__)
        base_pc = list(self.pc)
        base_dc = dict(self.dcache)
        base_facts = set(self.factset)
        base_cs = set(self.charset)
        results = []
        work = [[]]
        n = 0
        facts_all = []
        try:
            while work:
                p = work.pop()
                self.prefix = list(p); self.log = []; self.pending = []
                self.pc = list(base_pc); self.dcache = dict(base_dc); self.factset = set(base_facts); self.charset = set(base_cs)
                self.solver = z3.Solver(); self.solver.set('timeout', self.z3_timeout)
                for f in self.base_facts: self.solver.add(f)
                for f in base_pc: self.solver.add(f)
                self.sel_cache = dict(saved['sel_cache']); self.mem_cache = dict(saved['mem_cache'])
                self.completed = set(saved['completed']); self.inprog = list(saved['inprog']); self.depth = saved['depth']
                self.spec_unfold = dict(saved['spec_unfold'])
                try:
                    r = fn()
                except IllFormed as e:
                    r = T.Bad(z3.IntVal(1))
                except PathAbort:
                    r = None
                work.extend(self.pending)
                n += 1
                if n > max_paths: raise Unsupported('too many paths in summary')
                if r is not None:
                    # split pc into decision literals and facts
                    lits = [f for f in self.pc[len(base_pc):] if f.get_id() not in self.factset]
                    facts = [f for f in self.pc[len(base_pc):] if f.get_id() in self.factset and f.get_id() not in base_facts]
                    cond = and_(*lits)
                    facts_all.extend((cond, f) for f in facts)
                    results.append((cond, r))
        finally:
            st = self.stats
            self.__dict__.update(saved)
            self.stats = st
            self.pc = base_pc; self.dcache = base_dc; self.factset = base_facts; self.charset = base_cs
        if not results: raise PathAbort()
        for c, f in facts_all:
            self.assume(f if z3.is_true(c) else z3.Implies(c, f))
        t = results[-1][1]
        for c, r in reversed(results[:-1]):
            t = ite(c, r, t)
        return keep(t)

    def memo_builtin(self, v, f):
        k = ('builtin', v.key())
        r = self.mem_cache.get(k, 0)
        if r != 0: return r
        r = f()
        self.mem_cache[k] = r
        return r

    def merge(self, step, key=None):
        """evaluate step on all sub-paths; a single V if it does not branch, else a merged symbolic value"""
        if key is not None:
            # the same evaluation under the same path condition (paths are re-executed from the start)
            pc0 = list(self.pc)
            k = (key, tuple(x.get_id() for x in pc0), self.unfolding)
            m = self.merge_memo.get(k)
            if m is None:
                tm0 = set(self.tokmap)
                v = self.merge(step)
                if [x.get_id() for x in self.pc[:len(pc0)]] == list(k[1]):
                    self.merge_memo[k] = (v, [(f, f.get_id() in self.factset) for f in self.pc[len(pc0):]], {i: x for i, x in self.tokmap.items() if i not in tm0}, pc0)
                return v
            v, fs, tm, _ = m
            for f, isf in fs:
                if not isf: raise Unsupported('memoised evaluation decided something')
                self.assume(f)
            self.tokmap.update(tm)
            return v
        only = []
        def fn():
            v = step()
            only.append(v)
            return self.reify(v)
        t = self.summarise(fn)
        if len(only) == 1 and not self.mentions_bad(t): return only[0]
        return self.wrap(t)

    # ------------------------------------------------------------ facts about symbolic values
    def parser_result_facts(self, t):
        self.assume(z3.Or(T.is_Acc(t), T.is_Rej(t)))
        self.assume(z3.Implies(T.is_Acc(t), z3.And(T.is_Str(T.a_rem(t)), T.is_Pos(T.a_pos(t)))))
        self.assume(z3.Implies(T.is_Rej(t), T.is_Pos(T.r_pos(t))))

    def char_facts(self, c):
        if isinstance(c, int) or c.get_id() in self.charset: return
        k = (self.std, keep(c).get_id())
        f = CHARF.get(k)
        if f is None:
            f = CHARF[k] = keep(z3.And(c >= -128, c <= 127, c != -1) if self.std == '98' else z3.And(c >= -128, c <= 127))
        self.charset.add(c.get_id())
        self.assume(f)

    # ------------------------------------------------------------ names
    def tname(self, tid):
        return self.prog.decls[tid]['qname']
    def named_rec(self, q):
        r = self.prog.recbyname.get(q)
        if r is None: raise Unsupported('record %s not found' % q)
        return Rec(r)
    def named_tmpl(self, q):
        r = self.prog.byname.get(q)
        if r is None: raise Unsupported('template %s not found' % q)
        return TmplV(r)
    def mk(self, q, *args):
        return self.inst(self.named_tmpl(q), list(args))
    def int_(self, v): return self.mk('boost::mpl::int_', IntV(v, 'int'))
    def char_(self, v): return self.mk('boost::mpl::char_', IntV(v, 'char'))
    def bool_(self, v): return self.mk('boost::mpl::bool_', IntV(v, 'bool'))

    def show(self, v, depth=0):
        if isinstance(v, Inst):
            n = self.tname(v.tid).replace('boost::metaparse::v1::', '').replace('boost::mpl::', 'mpl::')
            if v.parent: n = self.show(v.parent, depth+1) + '::' + n.split('::')[-1]
            if depth > 6: return n + '<..>'
            return n + '<' + ', '.join(self.show(a, depth+1) for a in v.args) + '>'
        if isinstance(v, Rec):
            return self.prog.decls[v.rid]['qname'].replace('boost::metaparse::v1::', '')
        if isinstance(v, Sym): return '`' + tshow(v.t) + '`'
        if isinstance(v, IntV): return (str(v.v) if isinstance(v.v, int) else tshow(v.v))
        if isinstance(v, PackV): return ', '.join(self.show(a, depth+1) for a in v.items)
        if isinstance(v, Seg): return '`%s`...' % tshow(v.base)
        if isinstance(v, Prim): return v.s
        if isinstance(v, MSeq): return 'mpl::%s<%s>' % (v.flavour, ', '.join(self.show(a, depth+1) for a in v.items))
        if isinstance(v, App): return '%s::apply<%s>' % (tshow(v.f), ', '.join(self.show(a, depth+1) for a in v.args))
        if isinstance(v, CApp): return '%s::apply<%s>' % (self.show(v.inst, depth+1), ', '.join(self.show(a, depth+1) for a in v.args))
        if isinstance(v, Lazy): return '%s[%s]' % (v.name, self.show(v.val, depth+1))
        if isinstance(v, (TmplV,)): return self.tname(v.tid)
        return type(v).__name__ + str(v.key())[:80]

    def ill(self, why):
        raise IllFormed(why, LazyTrace(self, self.inprog[-12:]))
    def ill_with(self, why):
        e = IllFormed(why, LazyTrace(self, self.inprog[-12:]))
        e.insts = list(self.inprog)
        raise e

    # ------------------------------------------------------------ type evaluation
    def lookup_parm(self, env, j):
        d, i = j['d'], j['i']
        if d >= len(env.levels) or i >= len(env.levels[d]) or env.levels[d][i] is None:
            raise Unsupported('unbound template parameter d%d i%d' % (d, i))
        return env.levels[d][i]

    def ty(self, j, env):
        k = j['k']
        if k == 'val': return j['v']
        if k == 'parm':
            a = self.lookup_parm(env, j)
            if isinstance(a, PackV): raise Unsupported('unexpanded pack')
            return a
        if k == 'tst':
            tv = self.tmpl(j['t'], env)
            # tag and arity of a lambda expression are not looked at by its model
            if isinstance(tv, TmplV) and self.tname(tv.tid) == 'boost::mpl::lambda': return self.inst(tv, self.args(j['args'][:1], env))
            return self.inst(tv, self.args(j['args'], env))
        if k == 'dep':
            q = self.ty(j['q'], env)
            return self.mtype(q, j['name'])
        if k == 'deptst':
            q = self.ty(j['q'], env)
            return self.inst(self.mtmpl(q, j['name']), self.args(j['args'], env))
        if k == 'inj':
            v = env.chain.get(j['id'])
            if v is None: raise Unsupported('injected class name outside its class')
            return v
        if k == 'rec':
            return self.recref(j['id'], env)
        if k == 'builtin':
            return Prim(j['n'])
        if k == 'qual':
            v = self.ty(j['v'], env)
            return Prim('qual', v)
        if k in ('ptr', 'lref', 'rref', 'array'):
            return Prim(k + str(j.get('n', '')), self.ty(j['v'], env))
        if k == 'enum':
            return Prim('enum ' + j['n'])
        if k == 'fn':
            return Prim('fn' + json.dumps(j, sort_keys=True)[:300])
        if k == 'decltype':
            return self.decltype(j['e'], env)
        if k == 'expand':
            raise Unsupported('pack expansion in type position')
        raise Unsupported('type %s %s' % (k, j.get('what', '')))

    def decltype(self, e, env):
        raise Unsupported('decltype')

    def recref(self, rid, env):
        if rid in env.chain: return env.chain[rid]
        d = self.prog.decls[rid]
        p = d.get('parent')
        if p is None: return Rec(rid)
        if p in env.chain: return Rec(rid, env.chain[p])
        return Rec(rid, self.recref(p, env))

    def tmpl(self, j, env):
        k = j['k']
        if k == 'decl':
            d = self.prog.decls[j['id']]
            p = d.get('parent')
            if p is None: return TmplV(j['id'])
            o = self.recref(p, env)
            r = TmplV(j['id'], o)
            if d.get('name') == 'apply':
                con = self.contract_for(o)
                if con is not None and con.style == 'apply' and con.accepts(self, o): return CTmpl(o, con, r)
            return r
        if k == 'parm':
            return self.lookup_parm(env, j)
        if k in ('member', 'depname'):
            return self.mtmpl(self.ty(j['q'], env), j['name'])
        raise Unsupported('template name ' + j.get('what', k))

    def args(self, js, env):
        out = []
        for j in js:
            k = j['k']
            if k == 'pack':
                out.extend(self.args(j['v'], env))
            elif k == 'type':
                v = j['v']
                if v['k'] == 'expand': out.extend(self.expand(v['v'], env, 'type'))
                else: out.append(self.ty(v, env))
            elif k == 'int':
                out.append(IntV(int(j['v']), self.tyname(j['t'])))
            elif k == 'expr':
                v = j['v']
                if v['k'] == 'expand': out.extend(self.expand(v['e'], env, 'int'))
                else: out.append(self.expr(v, env))
            elif k == 'tmpl':
                out.append(self.tmpl(j['v'], env))
            elif k == 'tmplexpand':
                a = self.lookup_parm(env, j['v'])
                out.extend(a.items)
            else:
                raise Unsupported('template argument ' + j.get('what', k))
        return out

    def tyname(self, j):
        if j['k'] == 'builtin': return j['n']
        if j['k'] == 'qual': return self.tyname(j['v'])
        if j['k'] == 'enum': return 'int'
        return '?'

    def expand(self, pat, env, kind):
        ps = self.prog.packs_in(pat)
        if not ps: raise Unsupported('expansion without packs')
        packs = [env.levels[d][i] for d, i in ps]
        for p in packs:
            if not isinstance(p, PackV): raise Unsupported('expansion of a non-pack')
        n = len(packs[0].items)
        anyseg = any(isinstance(x, Seg) for p in packs for x in p.items)
        if len(packs) > 1:
            if anyseg: raise Unsupported('parallel expansion of symbolic packs')
            if any(len(p.items) != n for p in packs): self.ill('pack expansion contains packs of different lengths')
        out = []
        ev = (lambda e: self.ty(pat, e)) if kind == 'type' else (lambda e: self.expr(pat, e))
        simple = pat['k'] == 'parm'
        for idx in range(n):
            it = packs[0].items[idx]
            if isinstance(it, Seg):
                if simple: out.append(it); continue
                d, i = ps[0]
                def f(raw, it=it, d=d, i=i):
                    return ev(env.with_arg({(d, i): it.fmap(raw) if it.fmap else raw}))
                out.append(Seg(it.base, kind, None, it.role if it.role == 'charconst' else None, f, (id(pat), env.key(), it.fkey)))
            else:
                out.append(ev(env.with_arg({ps[q]: packs[q].items[idx] for q in range(len(ps))})))
        return out

    def seg_hd(self, s):
        if s.isint():
            h = ihd(s.base)
            raw = IntV(h, s.ct or 'char')
            if raw.t == 'char': self.char_facts(raw.v)
            if raw.t == 'bool': self.assume(z3.And(h >= 0, h <= 1))
        else:
            h = thd(s.base)
            if s.role:
                self.roles[keep(h).get_id()] = s.role
            raw = Sym(h)
            if s.role == 'charconst':
                self.assume(T.is_ICt(h)); self.char_facts(T.ic_val(h)); self.assume(T.ic_kind(h) == KINDS['char'])
        return s.fmap(raw) if s.fmap else raw
    def seg_tl(self, s):
        return Seg(itl(s.base) if s.isint() else ttl(s.base), s.kind, s.ct, s.role, s.fmap, s.fkey)
    def seg_isnil(self, s):
        return is_inil(s.base) if s.isint() else is_tnil(s.base)

    # ------------------------------------------------------------ instantiation
    def inst(self, tv, args):
        if isinstance(tv, SymApply):
            return App(tv.t, args)
        if isinstance(tv, CTmpl):
            if self.unfolding == (tv.inst.key(), tuple(a.key() for a in args)):
                return self.inst(tv.real, args)
            return CApp(tv.inst, tv.con, args, tv.real)
        if isinstance(tv, self.mpl.LamTmpl):
            return self.mpl.LamApp(tv.lam, args)
        if isinstance(tv, SymTmpl):
            return Sym(cls('tmplparam:' + tv.name, *[self.reify(a) for a in args]))
        if not isinstance(tv, TmplV): raise Unsupported('instantiation of ' + type(tv).__name__)
        d = self.prog.decls[tv.tid]
        outer = self.env_of(tv.parent) if tv.parent else Env((), {})
        bound = self.bind(d['params'], args, outer, d)
        if d['kind'] == 'aliastemplate':
            env = Env(outer.levels + (tuple(bound),), outer.chain)
            return self.ty(d['t'], env)
        if tv.parent is None:
            b = self.typeb.get(d['qname'])
            if b is not None:
                r = b(self, Inst(tv.tid, tv.parent, bound))
                if r is not None: return r
        return Inst(tv.tid, tv.parent, bound)

    def conv(self, a, t):
        """convert a non-type argument to the parameter type"""
        if isinstance(a, (IntV,)):
            if t in ('?',): return a
            return self.cast(a, t)
        return a

    def bind(self, params, args, outer, d):
        out = []
        i = 0
        for p in params:
            if p.get('pack'):
                items = args[i:]
                i = len(args)
                if p['k'] == 'int':
                    tn = self.tyname(p['t'])
                    items = [self.conv(x, tn) if not isinstance(x, Seg) else x for x in items]
                out.append(PackV(items))
                continue
            while i < len(args) and isinstance(args[i], Seg):
                s = args[i]
                if self.decide(self.seg_isnil(s)):
                    args = args[:i] + args[i+1:]
                else:
                    args = args[:i] + [self.seg_hd(s), self.seg_tl(s)] + args[i+1:]
            if i < len(args):
                a = args[i]; i += 1
                if p['k'] == 'int':
                    tn = self.tyname(p['t'])
                    if tn == '?' and p['t']['k'] == 'parm':
                        tt = self.ty(p['t'], Env(outer.levels + (tuple(out + [None] * (len(params) - len(out))),), outer.chain))
                        tn = tt.s if isinstance(tt, Prim) else '?'
                    a = self.conv(a, tn)
                out.append(a)
            elif 'def' in p and d.get('qname') == 'boost::mpl::lambda':
                out.append(Prim('default'))      # tag and arity of a lambda expression: not looked at by its model
            elif 'def' in p:
                env = Env(outer.levels + (tuple(out + [None] * (len(params) - len(out))),), outer.chain)
                out.append(self.args([p['def']], env)[0])
                if p['k'] == 'int':
                    out[-1] = self.conv(out[-1], self.tyname(p['t']))
            else:
                self.ill('too few template arguments for %s' % d.get('qname'))
        while i < len(args) and isinstance(args[i], Seg) and self.decide(self.seg_isnil(args[i])): i += 1
        if i < len(args): self.ill('too many template arguments for %s' % d.get('qname'))
        return out

    def env_of(self, v):
        return self.select(v)[1]

    def select(self, v):
        """choose the definition (primary / partial / explicit) for a class"""
        k = v.key()
        r = self.sel_cache.get(k)
        if r is not None: return r
        if isinstance(v, Rec):
            outer = self.env_of(v.parent) if v.parent else Env((), {})
            ch = dict(outer.chain); ch[v.rid] = v
            r = (v.rid, Env(outer.levels, ch))
            self.sel_cache[k] = r
            return r
        if not isinstance(v, Inst): raise Unsupported('select on ' + type(v).__name__)
        d = self.prog.decls[v.tid]
        outer = self.env_of(v.parent) if v.parent else Env((), {})
        self.stats['insts'] += 1
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
        chosen = None
        flat = self.flatten(v.args)
        for e in d['explicits']:
            if self.match_args(e['args'], flat, {}, -1, outer):
                ch = dict(outer.chain); ch[e['id']] = v
                chosen = (e['id'], Env(outer.levels, ch))
                break
        if chosen is None and d['partials']:
            cands = []
            depth = len(outer.levels)
            for p in d['partials']:
                b = {}
                if self.match_args(p['args'], flat, b, depth, outer):
                    cands.append((p, b))
            if cands:
                best = cands[0]
                for c in cands[1:]:
                    if self.more_special(c[0], best[0], depth): best = c
                p, b = best
                lv = []
                for i, pp in enumerate(p['params']):
                    if i in b: lv.append(b[i])
                    elif pp.get('pack'): lv.append(PackV([]))
                    else: raise Unsupported('undeduced parameter in partial specialisation of ' + d['qname'])
                ch = dict(outer.chain); ch[p['id']] = v
                chosen = (p['id'], Env(outer.levels + (tuple(lv),), ch))
        if chosen is None:
            ch = dict(outer.chain); ch[d['pattern']] = v
            chosen = (d['pattern'], Env(outer.levels + (v.args,), ch))
        self.sel_cache[k] = chosen
        return chosen

    def flatten(self, args):
        out = []
        for a in args:
            if isinstance(a, PackV): out.extend(a.items)
            else: out.append(a)
        return out
    def flat_pats(self, js):
        out = []
        for j in js:
            if j['k'] == 'pack': out.extend(self.flat_pats(j['v']))
            else: out.append(j)
        return out

    def match_args(self, pats, actual, b, depth, env):
        pats = self.flat_pats(pats)
        actual = list(actual)
        ai = 0
        for n, p in enumerate(pats):
            v = p.get('v')
            if isinstance(v, dict) and v.get('k') == 'expand' or p['k'] == 'tmplexpand':
                if n != len(pats) - 1: raise Unsupported('non-trailing pack in partial specialisation')
                inner = v.get('v') or v.get('e')
                if inner['k'] == 'parm' and inner['d'] == depth:
                    idx = inner['i']
                    rest = PackV(actual[ai:])
                    if idx in b:
                        if not self.decide(self.eq(b[idx], rest)): return False
                    else: b[idx] = rest
                    return True
                raise Unsupported('complex pack pattern')
            while ai < len(actual) and isinstance(actual[ai], Seg):
                s = actual[ai]
                if self.decide(self.seg_isnil(s)): actual = actual[:ai] + actual[ai+1:]
                else: actual = actual[:ai] + [self.seg_hd(s), self.seg_tl(s)] + actual[ai+1:]
            if ai >= len(actual): return False
            if not self.match_arg(p, actual[ai], b, depth, env): return False
            ai += 1
        while ai < len(actual) and isinstance(actual[ai], Seg):
            if self.decide(self.seg_isnil(actual[ai])): ai += 1
            else: return False
        return ai == len(actual)

    def more_special(self, a, b, depth):
        """partial ordering: pattern a is at least as specialised as b, and not conversely"""
        return self.pat_match_list(b['args'], a['args'], {}, depth) and not self.pat_match_list(a['args'], b['args'], {}, depth)

    def pat_match_list(self, ps, qs, b, depth):
        ps, qs = self.flat_pats(ps), self.flat_pats(qs)
        qi = 0
        for p in ps:
            v = p.get('v')
            if isinstance(v, dict) and v.get('k') == 'expand': return True
            if qi >= len(qs): return False
            q = qs[qi]; qi += 1
            w = q.get('v')
            if isinstance(w, dict) and w.get('k') == 'expand': return False
            if not self.pat_match(p, q, b, depth): return False
        return qi == len(qs)

    def pat_match(self, p, q, b, depth):
        def strip(e):
            while isinstance(e, dict) and (e.get('k') == 'cast' or (e.get('k') in ('type', 'expr', 'tmpl') and isinstance(e.get('v'), dict))):
                e = e['e'] if e['k'] == 'cast' else e['v']
            return e
        p, q = strip(p), strip(q)
        if isinstance(p, dict) and p.get('k') == 'parm' and p.get('d') == depth:
            i = p['i']
            kq = json.dumps(q, sort_keys=True)
            if i in b: return b[i] == kq
            b[i] = kq
            return True
        if not isinstance(q, dict) or p.get('k') != q.get('k'): return False
        if p['k'] == 'tst':
            tp, tq = p['t'], q['t']
            if tp.get('k') == 'parm' and tp.get('d') == depth: pass
            elif json.dumps(tp, sort_keys=True) != json.dumps(tq, sort_keys=True): return False
            return self.pat_match_list(p['args'], q['args'], b, depth)
        if p['k'] in ('ptr', 'lref', 'rref', 'qual'):
            return self.pat_match(p['v'], q['v'], b, depth)
        return json.dumps(p, sort_keys=True) == json.dumps(q, sort_keys=True)

    def match_arg(self, p, a, b, depth, env):
        k = p['k']
        if k == 'type':
            return self.match_ty(p['v'], a, b, depth, env)
        if k == 'int':
            if not isinstance(a, IntV): return False
            return self.decide(self.ieq(a, int(p['v'])))
        if k == 'expr':
            e = p['v']
            while e['k'] == 'cast' and e['e']['k'] == 'parm': e = e['e']
            if e['k'] == 'parm' and e['d'] == depth:
                if not isinstance(a, (IntV,)): return False
                i = e['i']
                if i in b: return self.decide(self.ieq(a, b[i].v))
                b[i] = a
                return True
            val = self.expr(e, env)
            return self.decide(self.ieq(a, val.v))
        if k == 'tmpl':
            j = p['v']
            if j['k'] == 'parm' and j['d'] == depth:
                if j['i'] in b: return b[j['i']] == a
                b[j['i']] = a
                return True
            return self.tmpl(j, env) == a
        raise Unsupported('pattern argument ' + k)

    def ieq(self, a, v):
        if isinstance(a.v, int) and isinstance(v, int): return a.v == v
        if v == -1 and isinstance(v, int) and self.std == '98' and a.v.get_id() in self.charset: return False
        return I(a.v) == I(v)

    def match_ty(self, p, a, b, depth, env):
        k = p['k']
        if k == 'parm':
            if p['d'] == depth:
                i = p['i']
                if i in b: return self.decide(self.eq(b[i], a))
                b[i] = a
                return True
            return self.decide(self.eq(self.ty(p, env), a))
        if k == 'tst':
            tj = p['t']
            if tj['k'] == 'parm' and tj['d'] == depth:
                if not isinstance(a, Inst): 
                    if isinstance(a, (Rec, Prim)): return False
                    if isinstance(a, (Sym, App)):
                        # template-template pattern against an opaque type: not matched (opaque classes are assumed not to be
                        # instances of the matched shape unless known)
                        a2 = self.try_expand(a)
                        if a2 is None: raise Unsupported('template template pattern on symbolic type')
                        a = a2
                    else: return False
                tv = TmplV(a.tid, a.parent)
                if tj['i'] in b and b[tj['i']] != tv: return False
                b[tj['i']] = tv
                return self.match_args(p['args'], self.flatten(a.args), b, depth, env)
            tv = self.tmpl(tj, env)
            if isinstance(tv, TmplV):
                q = self.prog.decls[tv.tid]['qname']
                a2 = self.as_instance_of(a, tv, q, p)
                if a2 is None: return False
                if a2 is True:    # closed pattern already decided
                    return True
                return self.match_args(p['args'], self.flatten(a2.args), b, depth, env)
            raise Unsupported('pattern template')
        if k == 'rec':
            r = self.recref(p['id'], env)
            if isinstance(a, (Inst, Rec, Prim, MSeq, Lazy, MMap)): return a == r
            if isinstance(a, Sym) and z3.is_const(a.t) and not is_cons_app(a.t, 'Cls') and isinstance(r, Rec) and not self.prog.decls[r.rid].get('complete'):
                self.assumptions_used.add('user classes are not the library\'s incomplete marker classes'); return False
            return self.decide(self.eq(a, r))
        if k == 'builtin':
            if isinstance(a, Prim): return a.s == p['n'] and a.sub is None
            if isinstance(a, Sym): return self.decide(self.eq(a, Prim(p['n'])))
            return False
        if k in ('ptr', 'lref', 'rref', 'qual'):
            if isinstance(a, Prim) and a.s == (k if k != 'qual' else 'qual') and a.sub is not None:
                return self.match_ty(p['v'], a.sub, b, depth, env)
            if isinstance(a, Sym): self.assumptions_used.add('user classes are unqualified class types'); return False
            return False
        if k == 'array':
            if isinstance(a, Prim) and a.s.startswith('array'): raise Unsupported('array pattern')
            return False
        if k == 'fn':
            return False
        if k in ('dep', 'deptst', 'inj'):
            return self.decide(self.eq(self.ty(p, env), a))
        if k == 'enum':
            return isinstance(a, Prim) and a.s == 'enum ' + p['n']
        raise Unsupported('type pattern ' + k)

    def as_instance_of(self, a, tv, q, p):
        """a viewed as an instance of template tv, or None"""
        if isinstance(a, Inst):
            return a if a.tid == tv.tid and (a.parent == tv.parent) else None
        if isinstance(a, (Rec, Prim)): return None
        if isinstance(a, MSeq):
            if q.startswith('boost::mpl::') and any(s in q for s in ('vector', 'list', 'deque', 'l_item', 'v_item')): raise Unsupported('pattern on mpl sequence')
            return None
        if isinstance(a, (MMap, MIter, Lazy, CApp, App)):
            if isinstance(a, (App, CApp)):
                self.assumptions_used.add('apply<...> of a user metafunction class is not itself an instance of a library template')
            return None
        if isinstance(a, Sym):
            t = a.t
            ct = {NS + 'accept': 'Acc', NS + 'reject': 'Rej', NS + 'source_position': 'Pos', NS + 'string': 'Str'}.get(q)
            if ct:
                if not self.decide(is_(ct, t)): return None
                if ct == 'Str': return self.string_inst(s_chars(t))
                return self.try_expand(a)
            if q in ('boost::mpl::int_', 'boost::mpl::char_', 'boost::mpl::bool_', 'boost::mpl::long_', 'boost::mpl::integral_c', 'boost::integral_constant', 'std::integral_constant'):
                if self.decide(is_('ICt', t)): raise Unsupported('pattern %s on symbolic constant' % q)
                return None
            self.assumptions_used.add('opaque user types are not instances of library-internal templates')
            if z3.is_app(t) and t.decl().name() == 'Cls': 
                pass
            return None
        raise Unsupported('as_instance_of ' + type(a).__name__)

    def try_expand(self, a):
        """a symbolic value known to be built by a library template, as an instance"""
        t = a.t
        if self.decide(is_('Acc', t)):
            return Inst(self.named_tmpl(NS + 'accept').tid, None, [Sym(a_res(t)), Sym(a_rem(t)), Sym(a_pos(t))])
        if self.decide(is_('Rej', t)):
            return Inst(self.named_tmpl(NS + 'reject').tid, None, [Sym(r_msg(t)), Sym(r_pos(t))])
        if self.decide(is_('Pos', t)):
            return Inst(self.named_tmpl(NS + 'source_position').tid, None, [self.int_(p_line(t)), self.int_(p_col(t)), self.char_(p_prev(t))])
        if self.decide(is_('Str', t)):
            return self.string_inst(s_chars(t))
        return None

    def string_inst(self, il):
        k = ('string_inst', keep(il).get_id())
        r = self.mem_cache.get(k)
        if r is None: r = self.mem_cache[k] = self.string_inst_(il)
        return r
    def string_inst_(self, il):
        tv = self.named_tmpl(NS + 'string')
        d = self.prog.decls[tv.tid]
        if d['params'][0].get('pack'):
            items = []
            while is_cons_app(il, 'icons'):
                items.append(IntV(il.arg(0), 'char')); il = il.arg(1)
            if not is_cons_app(il, 'inil'): items.append(Seg(il, 'int', 'char'))
            return Inst(tv.tid, None, [PackV(items)])
        n = len(d['params'])
        args = []
        cur = il
        ended = False
        for i in range(n):
            if not ended and self.decide(is_inil(cur)):
                ended = True
            if ended: args.append(IntV(-1, 'int'))
            else:
                h = ihd(cur); self.char_facts(h)
                args.append(IntV(h, 'int')); cur = itl(cur)
        if not ended:
            if not self.decide(is_inil(cur)): raise PathAbort()   # capacity precondition
        return Inst(tv.tid, None, args)

    # ------------------------------------------------------------ equality
    def has_sym(self, v):
        if isinstance(v, (Sym, App, CApp)): return True
        if isinstance(v, IntV): return not v.concrete()
        if isinstance(v, Inst): return any(self.has_sym(a) for a in v.args) or (v.parent is not None and self.has_sym(v.parent))
        if isinstance(v, Rec): return v.parent is not None and self.has_sym(v.parent)
        if isinstance(v, PackV): return any(self.has_sym(a) for a in v.items)
        if isinstance(v, MSeq): return any(self.has_sym(a) for a in v.items)
        if isinstance(v, Seg): return True
        if isinstance(v, Prim): return v.sub is not None and self.has_sym(v.sub)
        if isinstance(v, Lazy): return self.has_sym(v.val)
        return False

    def eq(self, a, b):
        """type identity as bool or z3 Bool"""
        if a.key() == b.key(): return True
        if isinstance(a, IntV) and isinstance(b, IntV): return self.ieq(a, b.v)
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a.tid != b.tid: return False
            if (a.parent is None) != (b.parent is None): return False
            cs = []
            if a.parent is not None:
                cs.append(self.eq(a.parent, b.parent))
            fa, fb = self.flatten(a.args), self.flatten(b.args)
            if any(isinstance(x, Seg) for x in fa + fb):
                return self.reify(a) == self.reify(b)
            if len(fa) != len(fb): return False
            for x, y in zip(fa, fb): cs.append(self.eq(x, y))
            if any(c is False for c in cs): return False
            cs = [c for c in cs if c is not True]
            if not cs: return True
            return and_(*cs)
        if isinstance(a, PackV) and isinstance(b, PackV):
            if any(isinstance(x, Seg) for x in a.items + b.items):
                return self.reify_pack(a) == self.reify_pack(b)
            if len(a.items) != len(b.items): return False
            cs = [self.eq(x, y) for x, y in zip(a.items, b.items)]
            if any(c is False for c in cs): return False
            return and_(*[c for c in cs if c is not True]) if any(c is not True for c in cs) else True
        if isinstance(a, (TmplV, SymTmpl)) or isinstance(b, (TmplV, SymTmpl)): return False
        if not self.has_sym(a) and not self.has_sym(b): return False
        if isinstance(a, (Sym, App, CApp, Lazy, MSeq)) or isinstance(b, (Sym, App, CApp, Lazy, MSeq)):
            na = self.is_na(a) or self.is_na(b)
            if na: 
                self.assumptions_used.add('no user-supplied type is boost::mpl::na')
                return False
            return self.reify(a) == self.reify(b)
        if type(a) != type(b): return False
        if isinstance(a, Rec) and a.rid == b.rid and a.parent and b.parent: return self.eq(a.parent, b.parent)
        if isinstance(a, Prim): 
            if a.s != b.s or (a.sub is None) != (b.sub is None): return False
            return self.eq(a.sub, b.sub)
        return False

    def is_na(self, v):
        return isinstance(v, Rec) and self.prog.decls[v.rid]['qname'] == 'boost::mpl::na'

    # ------------------------------------------------------------ reification
    def reify(self, v):
        if isinstance(v, Sym): return v.t
        t = self.reify_(v)
        if isinstance(v, (Inst, Rec)) and is_cons_app(t, 'Cls'): self.classes[keep(t).get_id()] = v
        return t
    def reify_(self, v):
        if isinstance(v, IntV): return T.ICt(z3.IntVal(100 + KINDS.get(v.t, 0)), I(v.v))
        if isinstance(v, Inst):
            q = self.tname(v.tid)
            if v.parent is None:
                if q == NS + 'accept': return T.Acc(self.reify(v.args[0]), self.reify_val(v.args[1]), self.reify_val(v.args[2]))
                if q == NS + 'reject': return T.Rej(self.reify(v.args[0]), self.reify_val(v.args[1]))
                if q == NS + 'source_position':
                    try:
                        l, c, p = (self.mval(x, 'value') for x in v.args)
                    except IllFormed:
                        return cls('T:' + q, *[self.reify(x) for x in v.args])
                    return T.Pos(I(l.v), I(c.v), I(p.v))
                if q == NS + 'string': return T.Str(self.reify_chars(v))
                icq = {'boost::mpl::int_': 'int', 'boost::mpl::char_': 'char', 'boost::mpl::bool_': 'bool', 'boost::mpl::long_': 'long', 'boost::mpl::size_t': 'unsigned long'}.get(q)
                if icq: return ic(icq, v.args[0].v)
                if q in ('boost::mpl::integral_c', 'boost::integral_constant', 'std::integral_constant') and isinstance(v.args[0], Prim) and v.args[0].s in KINDS:
                    return ic(v.args[0].s, v.args[1].v)
            pre = [self.reify(v.parent)] if v.parent is not None else []
            items = self.flatten(v.args)
            segs = [x for x in items if isinstance(x, Seg)]
            if not segs:
                return cls('T:' + q, *(pre + [self.reify(x) for x in items]))
            if isinstance(items[-1], Seg) and len(segs) == 1:
                tail = self.reify_seg(items[-1])
                if tail.sort().eq(IL):
                    tail = TL.tcons(T.Str(tail), TL.tnil)
                return T.Cls(z3.IntVal(cid('T:' + q)), tlist(pre + [self.reify(x) for x in items[:-1]], tail))
            return T.Cls(z3.IntVal(cid('T:' + q)), tlist(pre + [T.SeqT(self.reify_seg(x)) if isinstance(x, Seg) and not self.seg_sort_int(x) else (T.Str(self.reify_seg(x)) if isinstance(x, Seg) else self.reify(x)) for x in items]))
        if isinstance(v, Rec):
            pre = [self.reify(v.parent)] if v.parent is not None else []
            return cls('R:' + self.prog.decls[v.rid]['qname'], *pre)
        if isinstance(v, Prim):
            return cls('P:' + v.s, *([self.reify(v.sub)] if v.sub else []))
        if isinstance(v, (App, CApp)): return self.reify(self.mtype(v, 'type'))
        if isinstance(v, Lazy): return cls('lazy:' + v.name, self.reify(v.val))
        if isinstance(v, MSeq): return T.SeqT(self.reify_items(v.items))
        if isinstance(v, PackV): return T.SeqT(self.reify_items(v.items))
        if isinstance(v, TmplV): return cls('TT:' + self.tname(v.tid), *([self.reify(v.parent)] if v.parent else []))
        if isinstance(v, SymTmpl): return cls('STT:' + v.name)
        if isinstance(v, MMap): return cls('map', *[x for a, b in v.pairs for x in (self.reify(a), self.reify(b))])
        raise Unsupported('reify ' + type(v).__name__)

    def reify_val(self, v):
        return self.reify(self.force(v))

    def seg_sort_int(self, s):
        return s.kind == 'int' or (s.fmap is None and s.isint())

    def reify_seg(self, s):
        if s.fmap is None: return s.base
        # canonical element map
        if s.isint(): x = IntV(z3.Int('map!x'), s.ct or 'char')
        elif s.role == 'charconst': x = Sym(T.ICt(z3.IntVal(KINDS['char']), z3.Int('map!v')))
        else: x = Sym(z3.Const('map!t', T))
        n0 = len(self.log)
        r = s.fmap(x)
        if len(self.log) != n0: raise Unsupported('branching element map')
        if isinstance(r, IntV):
            rt, sort = I(r.v), IL
        else:
            rt, sort = self.reify(r), TL
        rt = z3.simplify(rt)
        if s.isint() and sort.eq(IL) and rt.eq(z3.Int('map!x')): return s.base
        return map_fn(s.base.sort(), rt, sort)(s.base)

    def reify_items(self, items):
        items = list(items)
        r = TL.tnil
        for i in range(len(items) - 1, -1, -1):
            x = items[i]
            if isinstance(x, Seg):
                sg = self.reify_seg(x)
                if is_cons_app(r, 'tnil'): r = sg
                else:
                    # seg followed by concrete elements: snoc chain
                    rest = []
                    rr = r
                    while is_cons_app(rr, 'tcons'): rest.append(rr.arg(0)); rr = rr.arg(1)
                    if not is_cons_app(rr, 'tnil'): raise Unsupported('two symbolic segments')
                    for e in rest: sg = snoc(sg, e)
                    r = sg
            else: r = TL.tcons(self.reify(x), r)
        return r

    def reify_pack(self, p):
        items = list(p.items)
        if all(isinstance(x, IntV) or (isinstance(x, Seg) and self.seg_sort_int(x)) for x in items):
            return self.reify_ints(items)
        return self.reify_items(items)

    def reify_ints(self, items):
        r = IL.inil
        items = list(items)
        for i in range(len(items) - 1, -1, -1):
            x = items[i]
            if isinstance(x, Seg):
                sg = self.reify_seg(x)
                if is_cons_app(r, 'inil'): r = sg
                else:
                    rest = []; rr = r
                    while is_cons_app(rr, 'icons'): rest.append(rr.arg(0)); rr = rr.arg(1)
                    if not is_cons_app(rr, 'inil'): return iappend(sg, r)
                    for e in rest: sg = isnoc(sg, e)
                    r = sg
            else: r = IL.icons(I(x.v), r)
        return r

    def reify_chars(self, v):
        d = self.prog.decls[v.tid]
        if d['params'][0].get('pack'):
            return self.reify_ints(v.args[0].items)
        # fixed arity, terminated by -1
        r = IL.inil
        for a in reversed(v.args):
            if isinstance(a.v, int):
                r = IL.inil if a.v == -1 else IL.icons(I(a.v), r)
            else:
                r = ite(self.simp(a.v == -1), IL.inil, IL.icons(a.v, r))
        return r

    def simp(self, c):
        s = z3.simplify(c)
        if z3.is_true(s) or z3.is_false(s): return s
        keep(c)
        if c.get_id() in self.dcache: return z3.BoolVal(self.dcache[c.get_id()])
        if self.entails(c): return z3.BoolVal(True)
        if self.entails(z3.Not(c)): return z3.BoolVal(False)
        return c

    def force(self, v):
        for _ in range(12):
            if isinstance(v, (Sym, Prim, MSeq, MMap, IntV)): return v
            try:
                w = self.find(v, 'type')
            except Unsupported:
                raise
            if w is None or w[0] != 'type': return v
            if w[1].key() == v.key(): return v
            v = w[1]
        self.ill('::type does not stabilise')

    # ------------------------------------------------------------ members
    def mtype(self, v, name):
        r = self.find(v, name)
        if r is None: self.ill('no type named %s in %s' % (name, self.show(v)))
        if r[0] != 'type': self.ill('%s is not a type in %s' % (name, self.show(v)))
        return r[1]
    def mtmpl(self, v, name):
        r = self.find(v, name)
        if r is None: self.ill('no template named %s in %s' % (name, self.show(v)))
        if r[0] == 'tmpl': return r[1]
        self.ill('%s is not a template in %s' % (name, self.show(v)))
    def mval(self, v, name):
        r = self.find(v, name)
        if r is None: self.ill('no member named %s in %s' % (name, self.show(v)))
        if r[0] != 'val': self.ill('%s is not a value in %s' % (name, self.show(v)))
        x = r[1]
        return x() if callable(x) else x

    def proto(self, v, q, name, val):
        """member of a protocol class (accept, reject, source_position, string) by its contract"""
        k = 'proto:%s::%s' % (q, name)
        if k in self.disabled or 'proto:%s::type' % q in self.disabled: return self.find(self.try_expand(v), name)
        self.used_contracts.add(k); self.used_contracts.add('proto:%s::type' % q)
        return ('type', val())
    def sym_member(self, v, name):
        t = v.t
        if is_cons_app(t, 'Cls') and t.get_id() in self.classes: return self.find(self.classes[t.get_id()], name)
        if name == 'type': return ('type', v)
        if name == 'apply': return ('tmpl', SymApply(t))
        if name == 'tag':
            for ctor, q, m in (('Rej', 'fail_tag', 'reject'), ('Acc', 'accept_tag', 'accept'), ('Pos', 'source_position_tag', 'source_position'), ('Str', 'string_tag', 'string')):
                if self.decide(is_(ctor, t)): return self.proto(v, m, name, lambda: self.named_rec(NS + q))
            if self.decide(is_('ICt', t)): return ('type', self.named_rec('boost::mpl::integral_c_tag'))
            if self.decide(is_('SeqT', t)): return ('type', Prim('tag of an MPL sequence'))
            return None
        if name == 'value':
            if self.decide(is_('ICt', t)):
                k = z3.simplify(T.ic_kind(t))
                kn = KNAMES.get(k.as_long(), 'int') if z3.is_int_value(k) else None
                if kn is None:
                    for cand in ('int', 'char', 'bool'):
                        if self.entails(T.ic_kind(t) == KINDS[cand]): kn = cand; break
                return ('val', IntV(ic_val(t), kn or 'int'))
            return None
        for ctor, m in (('Acc', {'result': a_res, 'remaining': a_rem, 'source_position': a_pos}), ('Rej', {'message': r_msg, 'source_position': r_pos})):
            if name in m and self.decide(is_(ctor, t)): return self.proto(v, 'accept' if ctor == 'Acc' else 'reject', name, lambda: Sym(m[name](t)))
        if name in ('line', 'col', 'prev_char') and self.decide(is_('Pos', t)):
            return self.proto(v, 'source_position', name, lambda: self.int_(p_line(t)) if name == 'line' else self.int_(p_col(t)) if name == 'col' else self.char_(p_prev(t)))
        if name == 'get_value':
            return ('val', Sym(z3.Function('message_text', T, T)(t)))
        for ctor in ('Acc', 'Rej', 'Pos', 'Str'):
            # any other member: the real class decides
            c = is_(ctor, t)
            if z3.is_true(c) or not z3.is_false(c) and self.entails(c): return self.find(self.try_expand(v), name)
        return None

    def find(self, v, name):
        """member lookup -> ('type',T) | ('tmpl',T) | ('val',IntV or thunk) | None"""
        k = (v.key(), name)
        r = self.mem_cache.get(k, 0)
        if r != 0: return r
        r = self.find_(v, name)
        self.mem_cache[k] = r
        return r

    def find_(self, v, name):
        if isinstance(v, Sym): return self.sym_member(v, name)
        if isinstance(v, App):
            tv = self.app_value(v)
            if name == 'type': return ('type', tv)
            if name == 'value': return self.find(tv, 'value')
            return None
        if isinstance(v, CApp):
            if name == 'type': return ('type', self.contract_value(v))
            if name == 'value': return self.find(self.contract_value(v), 'value')
            return self.find(self.inst(v.real, list(v.args)), name)
        if isinstance(v, Lazy):
            if name == 'type': return ('type', v.val)
            if v.inherit or name == 'value': return self.find(v.val, name)
            return None
        if isinstance(v, MSeq):
            if name == 'type': return ('type', v)
            if name == 'tag': return ('type', Prim('tag of an MPL sequence'))
            return None
        if isinstance(v, MMap):
            if name == 'type': return ('type', v)
            return None
        if isinstance(v, MIter):
            if name == 'type': return ('type', v)
            return None
        if isinstance(v, Prim): return None
        if isinstance(v, (self.mpl.Lam, self.mpl.LamApp)): return self.mpl.lam_find(self, v, name)
        if not isinstance(v, (Inst, Rec)): raise Unsupported('member of ' + type(v).__name__)
        if isinstance(v, Inst) and v.parent is None:
            h = self.mpl.meta_for(self.tname(v.tid))
            if h is not None:
                val = self.memo_builtin(v, lambda: h(self, v))
                if val is not None:
                    if name == 'type': return ('type', val)
                    return self.find(val, name)
        con = self.contract_for(v)
        if con is not None:
            if con.style == 'meta' and name in ('type', 'value'):
                if self.unfolding != (v.key(), None):
                    cv = self.meta_contract_value(v, con)
                    if cv is not None:
                        if name == 'type': return ('type', cv)
                        return self.find(cv, 'value')
            if con.style == 'apply' and name == 'apply':
                if True:
                    real = self.find_real(v, name)
                    if real is not None and real[0] == 'tmpl' and con.accepts(self, v):
                        return ('tmpl', CTmpl(v, con, real[1]))
                    return real
        return self.find_real(v, name)

    def find_real(self, v, name):
        self.complete(v)
        rid, env = self.select(v)
        mem = self.prog.patmem.get(rid)
        if mem is None: self.ill('incomplete type ' + self.show(v))
        y = mem.get(name)
        if y is not None:
            k = y['k']
            if k == 'typedef':
                return ('type', self.ty(y['t'], env))
            if k == 'rec': return ('type', Rec(y['id'], v))
            if k == 'tmpl': return ('tmpl', TmplV(y['id'], v))
            if k == 'usingtmpl': return ('tmpl', self.tmpl(y['t'], env))
            if k == 'var':
                if 'init' in y: return ('val', lambda: self.var_value(y, env, v))
                return ('val', lambda: self.ill('no initialiser for ' + name))
            if k == 'enumc':
                if y['init'] is not None: return ('val', lambda: self.conv(self.expr(y['init'], env), '?'))
                if y['prev'] is None: return ('val', IntV(0, 'int'))
                def th():
                    pv = self.mval(v, y['prev']); return IntV(pv.v + 1, 'int')
                return ('val', th)
            if k in ('fn', 'fntmpl'): return ('fn', (y, env, v))
            raise Unsupported('member kind ' + k)
        d = self.prog.decls[rid]
        if name == d['name']: return ('type', v)
        for b in self.bases(v, rid, env):
            r = self.find(b, name)
            if r is not None: return r
        return None

    def var_value(self, y, env, v):
        e = y['init']
        if e['k'] in ('initlist',):
            return self.bounded_array(y, env, ArrV(self.init_items(e, env)))
        x = self.expr(e, env)
        if isinstance(x, ArrV): return self.bounded_array(y, env, x)
        t = self.tyname(y['t'])
        if t == '?' and isinstance(x, IntV) and y['t']['k'] in ('parm', 'qual', 'dep'):
            tt = self.ty(y['t'], env)
            while isinstance(tt, Prim) and tt.s == 'qual': tt = tt.sub
            if isinstance(tt, Prim): t = tt.s
        return self.conv(x, t) if isinstance(x, IntV) else x

    def bounded_array(self, y, env, x):
        """an array initialised by x has the number of elements it is declared with"""
        import fns
        t = y['t']
        while t and t.get('k') == 'qual': t = t.get('v') or t.get('t')
        if not t or t.get('k') != 'array': return x
        el = t['v']
        while el and el.get('k') == 'qual': el = el.get('v') or el.get('t')
        if el.get('k') == 'array': return x
        if 'n' in t: n = t['n']
        elif 'e' in t:
            n = self.expr(t['e'], env)
            if not isinstance(n, IntV): return x
            n = n.v
        else: return x
        k = fns.alen(self, x)
        if isinstance(n, int) and isinstance(k, int): more = n - k
        else:
            more = z3.simplify(I(n) - I(k))
            if z3.is_int_value(more): more = more.as_long()
            elif self.decide(more < 0): more = -1
            elif self.entails(more == 0): more = 0
            else: raise Unsupported('array longer than its initialiser by an unknown amount')
        if more < 0: self.ill('too many initialisers for an array')
        return ArrV(list(x.items) + [IntV(0, self.tyname(el) if self.tyname(el) != '?' else 'int')] * more) if more else x

    def init_items(self, e, env):
        out = []
        for x in e['v']:
            if x['k'] == 'expand': out.extend(self.expand(x['e'], env, 'int'))
            elif x['k'] == 'initlist': out.extend(self.init_items(x, env))
            else: out.append(self.expr(x, env))
        return out

    def bases(self, v, rid, env):
        k = ('bases', v.key())
        r = self.mem_cache.get(k)
        if r is not None: return r
        d = self.prog.decls[rid]
        out = []
        for b in d['bases']:
            if b.get('expand'):
                out.extend(self.expand(b['t'].get('v', b['t']) if b['t']['k'] == 'expand' else b['t'], env, 'type'))
            else:
                out.append(self.ty(b['t'], env))
        self.mem_cache[k] = out
        return out

    def complete(self, v):
        """instantiate a class: bases, member declarations, assertions"""
        if not isinstance(v, (Inst, Rec)): return
        k = v.key()
        if k in self.completed: return
        self.completed.add(k)
        self.depth += 1
        if self.depth > self.max_depth: raise Unsupported('instantiation depth exceeded at ' + self.show(v)[:300])
        self.inprog.append(v)
        try:
            rid, env = self.select(v)
            d = self.prog.decls[rid]
            if d.get('root'): self.loc_used.add(d['loc'])
            if not d.get('complete'): self.ill_with('incomplete type ' + self.show(v))
            for b in self.bases(v, rid, env):
                if isinstance(b, Prim): self.ill('base is not a class')
                self.complete_base(b)
            for y in d['members']:
                kk = y['k']
                if kk == 'typedef':
                    self.find(v, y['name'])
                elif kk == 'static_assert':
                    x = self.expr(y['e'], env)
                    if not self.decide(self.truth(x)): self.ill_with('static assertion failed in ' + self.show(v))
                elif kk == 'enum':
                    for c in y['v']:
                        self.mval(v, c['name'])
        finally:
            self.inprog.pop()
            self.depth -= 1

    def complete_base(self, b):
        if isinstance(b, CApp):
            return      # discharged by the callee's contract (well-formedness is part of it)
        if isinstance(b, Inst) and b.parent is None:
            h = self.mpl.meta_for(self.tname(b.tid))
            if h is not None:
                val = self.memo_builtin(b, lambda: h(self, b))
                if val is not None: return
        if isinstance(b, (Inst, Rec)):
            con = self.contract_for(b)
            if con is not None and con.style == 'meta' and con.opaque and self.unfolding != (b.key(), None):
                if con.accepts(self, b): return
        self.complete(b)

    # ------------------------------------------------------------ contracts
    def named_types(self):
        """contracts on typedefs that are used modularly: class the typedef names -> contract"""
        if self.tdcons is None:
            self.tdcons = {}
            for c in self.contracts.typedefs():
                t = self.prog.typedefs.get(c.qname)
                if t is None or not c.applies_std(self.std): continue
                try: v = self.ty(t, Env((), {}))
                except (IllFormed, Unsupported): continue
                if isinstance(v, Inst): self.tdcons.setdefault(v.key(), c)
        return self.tdcons
    def contract_for(self, v):
        if self.contracts is None or not isinstance(v, (Inst, Rec)): return None
        if isinstance(v, Inst):
            if v.parent is not None and not isinstance(v.parent, Rec): 
                q = self.tname(v.tid)
                # members of explicit specialisations keep a stable name (hooks); others are private
                pass
            q = self.tname(v.tid)
            if v.parent is None:
                c = self.named_types().get(v.key())
                if c is not None and c.name not in self.disabled: return c
        else:
            q = self.prog.decls[v.rid]['qname']
        c = self.contracts.get(q)
        if c is None or c.name in self.disabled: return None
        if not c.applies_std(self.std): return None
        return c

    def evaluated(self, a):
        return isinstance(a, Sym) or isinstance(a, Inst) and a.parent is None and self.tname(a.tid) in (NS + 'string', NS + 'source_position')
    def contract_value(self, v):
        if v.con.apply_params == ('S', 'Pos') and not all(self.evaluated(a) for a in v.args):
            # outside the precondition (evaluated arguments): the code itself decides
            return self.mtype(self.inst(v.real, list(v.args)), 'type')
        self.used_contracts.add(v.con.name)
        t = v.con.value(self, v.inst, v.args)
        return self.wrap(t)
    def meta_contract_value(self, v, con):
        if not con.accepts(self, v): return None
        self.used_contracts.add(con.name)
        t = con.value(self, v, ())
        return self.wrap(t)
    def wrap(self, t):
        if isinstance(t, V): return t
        if is_cons_app(t, 'Bad'): self.ill('ill-formed by contract')
        if not (z3.is_app(t) and t.decl().name() in CTORS) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and self.mentions_bad(t):
            if self.decide(T.is_Bad(t)): self.ill('ill-formed by contract')
        return Sym(t)
    def mentions_bad(self, t):
        seen = set(); st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() == 'Bad': return True
                if x.decl().kind() == z3.Z3_OP_ITE: st.extend([x.arg(1), x.arg(2)])
        return False

    def app_value(self, v):
        role = self.roles.get(v.f.get_id())
        n = len(v.args)
        if n not in appn: raise Unsupported('apply with %d arguments' % n)
        if role == 'parser':
            if not all(self.evaluated(a) for a in v.args): raise Unsupported('unevaluated argument passed to a parser: ' + ', '.join(self.show(a) for a in v.args))
            args = [self.reify_val(a) for a in v.args]
            t = app2(v.f, *args)
            self.parser_result_facts(t)
            return Sym(t)
        args = [self.reify(a) if not isinstance(a, (Inst,)) else self.reify(a) for a in v.args]
        t = appn[n](v.f, *args)
        if role == 'pred':
            self.assume(T.is_ICt(t)); self.assume(z3.And(T.ic_val(t) >= 0, T.ic_val(t) <= 1)); self.assume(T.ic_kind(t) == KINDS['bool'])
        if role == 'errfn':
            self.parser_result_facts(t)
        return Sym(t)

    # ------------------------------------------------------------ expressions
    def truth(self, x):
        if isinstance(x, IntV):
            if isinstance(x.v, int): return x.v != 0
            if z3.is_bool(x.v): return x.v
            v = x.v
            # 0/1-valued ite
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                a, b = v.arg(1).as_long() != 0, v.arg(2).as_long() != 0
                if a and not b: return v.arg(0)
                if b and not a: return z3.Not(v.arg(0))
            return v != 0
        if isinstance(x, PtrV): return True
        raise Unsupported('truth of ' + type(x).__name__)

    def cast(self, x, t):
        if not isinstance(x, IntV): return x
        if t in ('bool', '_Bool'):
            c = self.truth(x)
            return IntV(c if not isinstance(c, bool) else int(c), 'bool')
        if t in SIGNED:
            lo, hi = -(1 << SIGNED[t]), (1 << SIGNED[t]) - 1
            if isinstance(x.v, int):
                v = x.v
                if not lo <= v <= hi: v = ((v - lo) % (hi - lo + 1)) + lo
                return IntV(v, t)
            v = I(x.v)
            if z3.is_bool(x.v): return IntV(x.v, t)
            if x.t in SIGNED and SIGNED[x.t] <= SIGNED[t]: return IntV(x.v, t)
            if x.t == 'bool': return IntV(x.v, t)
            if self.entails(z3.And(v >= lo, v <= hi)): return IntV(v, t)
            return IntV(((v - lo) % (hi - lo + 1)) + lo, t)
        if t in UNSIGNED:
            m = 1 << UNSIGNED[t]
            if isinstance(x.v, int): return IntV(x.v % m, t)
            v = I(x.v)
            if x.t in UNSIGNED and UNSIGNED[x.t] <= UNSIGNED[t] or x.t == 'bool': return IntV(x.v, t)
            if self.entails(v >= 0): return IntV(v, t)
            return IntV(z3.If(v >= 0, v, v + m), t)
        return IntV(x.v, x.t)

    def arith_type(self, a, b):
        r = a.t if RANK.get(a.t, 3) >= RANK.get(b.t, 3) else b.t
        if RANK.get(r, 3) < 3: r = 'int'
        return r

    def binop(self, op, a, b):
        import fns
        if isinstance(a, fns.TextV) or isinstance(b, fns.TextV): return fns.text_op(self, op, a, b)
        if isinstance(a, (PtrV, ArrV)) or isinstance(b, (PtrV, ArrV)): return self.ptrop(op, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym) or not isinstance(a, IntV) or not isinstance(b, IntV):
            raise Unsupported('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))
        if op in ('==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'):
            t = self.arith_type(a, b)
            if t in UNSIGNED:
                a, b = self.cast(a, t), self.cast(b, t)
            x, y = a.v, b.v
            if isinstance(x, int) and isinstance(y, int):
                if op == '==': return IntV(x == y, 'bool')
                if op == '!=': return IntV(x != y, 'bool')
                if op == '<': return IntV(x < y, 'bool')
                if op == '<=': return IntV(x <= y, 'bool')
                if op == '>': return IntV(x > y, 'bool')
                if op == '>=': return IntV(x >= y, 'bool')
                if op in ('/', '%') and y == 0: self.ill('division by zero')
                if op == '/': r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                elif op == '%': r = abs(x) % abs(y) * (1 if x >= 0 else -1)
                else:
                    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y,
                         '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                if t in UNSIGNED: r %= 1 << UNSIGNED[t]
                elif t in SIGNED and not -(1 << SIGNED[t]) <= r < (1 << SIGNED[t]): self.ill('overflow in constant expression')
                return IntV(r, t)
            x, y = I(x), I(y)
            if op == '==': return IntV(x == y, 'bool')
            if op == '!=': return IntV(x != y, 'bool')
            if op == '<': return IntV(x < y, 'bool')
            if op == '<=': return IntV(x <= y, 'bool')
            if op == '>': return IntV(x > y, 'bool')
            if op == '>=': return IntV(x >= y, 'bool')
            if op == '+': r = x + y
            elif op == '-': r = x - y
            elif op == '*': r = x * y
            elif op in ('/', '%') and z3.is_int_value(y) and y.as_long() != 0:
                n = abs(y.as_long())
                pos = self.entails(x >= 0)
                if op == '/':
                    r = x / n if pos else z3.If(x >= 0, x / n, -((-x) / n))
                    if y.as_long() < 0: r = -r
                else: r = x % n if pos else z3.If(x >= 0, x % n, -((-x) % n))
            elif op in ('<<', '>>') and z3.is_int_value(y) and 0 <= y.as_long() < 64:
                r = x * (1 << y.as_long()) if op == '<<' else x / (1 << y.as_long())
            elif op in ('&', '|', '^') and (z3.is_int_value(x) or z3.is_int_value(y)):
                v, m = (y, x.as_long()) if z3.is_int_value(x) else (x, y.as_long())
                c = bit_and(v, m)
                r = c if op == '&' else v + m - c if op == '|' else v + m - 2 * c
            else: raise Unsupported('symbolic operator ' + op)
            if t in UNSIGNED:
                m = 1 << UNSIGNED[t]
                if not self.entails(z3.And(r >= 0, r < m)): r = r % m
            else:
                self.assumptions_used.add('machine arithmetic on int treated as mathematical (overflow in a constant expression is a compile error)')
            return IntV(z3.simplify(r), t)
        if op == ',': return b
        raise Unsupported('operator ' + op)

    def ptrop(self, op, a, b):
        import fns
        return fns.ptrop(self, op, a, b)

    def expr(self, j, env):
        k = j['k']
        if k == 'int': return IntV(int(j['v']), self.tyname(j['t']))
        if k == 'parm':
            return self.lookup_parm(env, j)
        if k == 'cast':
            x = self.expr(j['e'], env)
            import fns
            if fns.text_type(self, j['t'], env): return x if isinstance(x, fns.TextV) else fns.text_make(self, fns.text_type(self, j['t'], env), [x])
            tn = self.tyname(j['t'])
            if tn == '?':
                tt = self.ty(j['t'], env)
                while isinstance(tt, Prim) and tt.s == 'qual': tt = tt.sub
                tn = tt.s if isinstance(tt, Prim) else '?'
            return self.cast(x, tn) if tn != '?' else x
        if k == 'sizeofexpr':
            import fns
            f = j['e'].get('f') or {}
            if j['e'].get('k') == 'call' and str(f.get('name')).endswith('assertion_failed') and f.get('targs'):     # BOOST_MPL_ASSERT_*
                x = self.args(f['targs'][:1], env)[0]
                if not self.decide(self.truth(x)): self.ill_with('assertion failed (BOOST_MPL_ASSERT)')
                return IntV(1, 'unsigned long')
            x = self.expr(j['e'], env)
            if isinstance(x, fns.LitArr): return IntV(x.len, 'unsigned long')
            if isinstance(x, ArrV) and all(isinstance(y, IntV) and y.t == 'char' for y in x.items): return IntV(len(x.items), 'unsigned long')
            raise Unsupported('sizeof an expression')
        if k == 'depref':
            q = self.ty(j['q'], env)
            if hasattr(q, 'arr') and j['name'] == 'value': return q.arr
            return self.mval(q, j['name'])
        if k == 'binop':
            op = j['op']
            if op in ('&&', '||'):
                a = self.truth(self.expr(j['a'], env))
                if a is True or (not isinstance(a, bool) and z3.is_true(a)):
                    if op == '||':
                        if env.locals is None: self.expr(j['b'], env)
                        return IntV(1, 'bool')
                    return IntV(self.truth(self.expr(j['b'], env)), 'bool')
                if a is False or (not isinstance(a, bool) and z3.is_false(a)):
                    if op == '&&':
                        if env.locals is None: self.expr(j['b'], env)
                        return IntV(0, 'bool')
                    return IntV(self.truth(self.expr(j['b'], env)), 'bool')
                if env.locals is not None and not pure(j['b']):
                    # in a function body the right operand is evaluated only when the left one does not decide
                    if self.decide(a) != (op == '&&'): return IntV(0 if op == '&&' else 1, 'bool')
                    return IntV(self.truth(self.expr(j['b'], env)), 'bool')
                b = self.truth(self.expr(j['b'], env))
                b = z3.BoolVal(b) if isinstance(b, bool) else b
                return IntV(and_(a, b) if op == '&&' else or_(a, b), 'bool')
            if op in ('=', '+=', '-=', '*=', '|=', '&='): return self.assign(j, env)
            return self.binop(op, self.expr(j['a'], env), self.expr(j['b'], env))
        if k == 'global' and j['name'] == 'std::cout':
            import fns
            return fns.stdout_of(self)
        if k in ('fn', 'fnlookup') and j['name'].split('::')[-1] in ('endl', 'flush', 'ends') and not j.get('cands'):
            import fns
            return fns.ManipV(j['name'].split('::')[-1])
        if k == 'opcall':
            if len(j['args']) == 2: return self.expr({'k': 'binop', 'op': j['op'], 'a': j['args'][0], 'b': j['args'][1]}, env)
            return self.expr({'k': 'unop', 'op': j['op'], 'e': j['args'][0], 'post': False}, env)
        if k == 'unop':
            return self.unop(j, env)
        if k == 'cond':
            c = self.truth(self.expr(j['c'], env))
            if self.decide(c): return self.expr(j['a'], env)
            return self.expr(j['b'], env)
        if k == 'sizeofpack':
            p = env.levels[j['d']][j['i']]
            n = 0; syms = []
            for x in p.items:
                if isinstance(x, Seg): syms.append(x)
                else: n += 1
            v = n
            for s in syms: v = v + self.seg_len(s)
            return IntV(v, 'unsigned long')
        if k == 'sizeof':
            t = self.ty(j['t'], env)
            self.complete(t)
            return IntV(1, 'unsigned long')
        if k == 'typetrait':
            if j['n'] in ('__is_same',):
                r = self.eq(self.ty(j['args'][0], env), self.ty(j['args'][1], env))
                return IntV(r, 'bool')
            raise Unsupported('type trait ' + j['n'])
        if k == 'zero': return IntV(0, self.tyname(j['t']))
        if k == 'construct':
            import fns
            tk = fns.text_type(self, j['t'], env)
            if tk: return fns.text_make(self, tk, [self.expr(a, env) for a in j['args'] if a.get('k') != 'defaultarg'])
            if not j['args']:
                t = self.ty(j['t'], env)
                if isinstance(t, Prim): return IntV(0, t.s)
                return t
            if len(j['args']) == 1:
                tn = self.ty(j['t'], env)
                x = self.expr(j['args'][0], env)
                if isinstance(tn, Prim) and isinstance(x, IntV): return self.cast(x, tn.s)
                return x
            raise Unsupported('construct')
        if k == 'parenlist' and len(j['v']) == 1: return self.expr(j['v'][0], env)
        if k == 'local':
            if env.locals is None or j['name'] not in env.locals: raise Unsupported('local ' + j['name'])
            return env.locals[j['name']]
        if k == 'call': return self.call(j, env)
        if k == 'memcall':
            import fns
            return fns.memcall(self, self.expr(j['obj'], env), j['name'], [self.expr(a, env) for a in j['args'] if a.get('k') != 'defaultarg'])
        if k == 'index':
            a = self.expr(j['a'], env); i = self.expr(j['i'], env)
            return self.index(a, i)
        if k == 'initlist':
            items = self.init_items(j, env)
            if len(items) == 1 and False: return items[0]
            return ArrV(items)
        if k == 'strlit': return ArrV([IntV(c, 'char') for c in j['v']] + [IntV(0, 'char')])
        if k == 'fold':
            return self.foldexpr(j, env)
        if k == 'expand': raise Unsupported('expansion in expression')
        raise Unsupported('expression %s %s' % (k, j.get('what', '')))

    def seg_len(self, s):
        l = tlen(s.base) if not s.isint() else ilen(s.base)
        self.assume(z3.And(l >= 0, l < 2**31 - 1))
        self.assumptions_used.add('a parameter pack has fewer than 2^31 - 1 elements')
        nil = is_tnil(s.base) if not s.isint() else is_inil(s.base)
        tl = ttl(s.base) if not s.isint() else itl(s.base)
        ltl = tlen(tl) if not s.isint() else ilen(tl)
        self.assume(ltl >= 0)
        self.assume(l == z3.If(nil, 0, 1 + ltl))
        return l

    def disabled_fns(self): return {NS + n for n in self.disabled}

    def foldexpr(self, j, env):
        items = self.expand(j['pattern'], env, 'int')
        if any(isinstance(x, Seg) for x in items): raise Unsupported('fold expression over symbolic pack')
        op = j['op']
        def comb(a, b):
            if op in ('&&', '||'):
                x, y = self.truth(a), self.truth(b)
                x = z3.BoolVal(x) if isinstance(x, bool) else x
                y = z3.BoolVal(y) if isinstance(y, bool) else y
                return IntV(and_(x, y) if op == '&&' else or_(x, y), 'bool')
            return self.binop(op, a, b)
        if 'init' in j:
            acc = self.expr(j['init'], env)
        elif not items:
            if op == '&&': return IntV(1, 'bool')
            if op == '||': return IntV(0, 'bool')
            self.ill('empty fold')
        else:
            acc = items[-1] if j['right'] else items[0]
            items = items[:-1] if j['right'] else items[1:]
        for x in (reversed(items) if j['right'] else items):
            acc = comb(x, acc) if j['right'] else comb(acc, x)
        return acc

    def unop(self, j, env):
        op = j['op']
        if op == '!':
            c = self.truth(self.expr(j['e'], env))
            return IntV((not c) if isinstance(c, bool) else not_(c), 'bool')
        if op == '-':
            x = self.expr(j['e'], env)
            return IntV(-x.v if isinstance(x.v, int) else -I(x.v), 'int' if RANK.get(x.t, 3) < 3 else x.t)
        if op == '+': return self.expr(j['e'], env)
        if op == '~':
            x = self.expr(j['e'], env)
            return IntV(~x.v if isinstance(x.v, int) else -I(x.v) - 1, 'int')
        import fns
        return fns.unop(self, j, env)

    def assign(self, j, env):
        import fns
        return fns.assign(self, j, env)
    def call(self, j, env):
        import fns
        return fns.call(self, j, env)
    def index(self, a, i):
        import fns
        return fns.index(self, a, i)

_maps = {}
def map_fn(src, body, dst):
    k = (src.name(), body.sexpr(), dst.name())
    if k not in _maps:
        _maps[k] = z3.Function('map%d' % len(_maps), src, dst)
    return _maps[k]
iappend_f = z3.Function('iappend', IL, IL, IL)
def iappend(a, b):
    if is_cons_app(a, 'inil'): return b
    if is_cons_app(a, 'icons'): return IL.icons(a.arg(0), iappend(a.arg(1), b))
    if is_cons_app(b, 'inil'): return a
    return iappend_f(a, b)
