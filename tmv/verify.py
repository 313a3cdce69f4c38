"""Discharges contracts: for every template under contract, the symbolic value of
its (extracted) body is compared with its specification on every path."""
import time, itertools, z3
from terms import *
import engine as E_
from engine import *
from spec import *
import contracts as K
from limits import STR, SEQ, ONEOF, EXCEPT

CAP98 = {'one_of': range(0, ONEOF + 1), 'one_of_c': range(0, ONEOF + 1), 'one_char_except': range(0, EXCEPT + 1), 'one_char_except_c': range(0, EXCEPT + 1),
         'sequence': range(1, SEQ + 1), 'first_of': range(0, SEQ + 1), 'last_of': range(0, SEQ + 1), 'nth_of_c': range(0, SEQ + 1), 'nth_of': range(0, SEQ + 1),
         'repeated_one_of': range(0, ONEOF + 1), 'repeated_one_of1': range(0, ONEOF + 1)}

class Result:
    """outcome of one obligation"""
    def __init__(self, name, status, detail='', data=None, path=None):
        self.name, self.status, self.detail, self.data, self.path = name, status, detail, data, path
    # status: discharged | refuted | undecided | unsupported

def fresh_engine(prog, contracts=True, **kw):
    e = Engine(prog, ContractTable() if contracts else None, **kw)
    e.tokmap = {}
    return e
class ContractTable:
    def get(self, q): return K.lookup(q)
    def typedefs(self): return [c for c in K.CON.values() if c.kind == 'typedef' and getattr(c, 'modular', False)]

def symparam(e, role, name, n=None, pack=None, slen=None):
    """symbolic template argument(s) for a role; returns list of V"""
    if role[0] == '~':      # a lazily evaluated argument: a class whose ::type is the value
        return [Lazy(symparam(e, role[1:], name, n, pack, slen)[0], False, 'vn')]
    if role[0] == '!':      # the real class the value stands for
        v = symparam(e, role[1:], name, n, pack, slen)[0]
        return [e.try_expand(v)]
    if role == 'Y': return [Sym(z3.Const(name, T))]
    if role in ('P', 'F', 'Op', 'Pred', 'E', 'M', 'V', 'St', 'Sv', 'X'):
        t = z3.Const(name, T)
        rl = {'P': 'parser', 'Pred': 'pred', 'E': 'errfn'}.get(role)
        if rl: e.roles[keep(t).get_id()] = rl
        return [Sym(t)]
    if role == 'C':
        x = z3.Int(name); e.assume(z3.And(x >= -128, x <= 127))
        return [IntV(x, 'char')]
    if role == 'B': return [IntV(z3.Bool(name), 'bool')]
    if role == 'N':
        if n is not None: return [IntV(n, 'int')]
        x = z3.Int(name); e.assume(z3.And(x >= -2**31, x < 2**31))
        return [IntV(x, 'int')]
    if role in ('Ct', 'Nt'):
        if n is not None and role == 'Nt': return [e.int_(n)]
        t = z3.Const(name, T)
        e.assume(T.is_ICt(t))
        if role == 'Ct':
            e.assume(T.ic_kind(t) == KINDS['char']); e.assume(z3.And(T.ic_val(t) >= -128, T.ic_val(t) <= 127))
        else:
            e.assume(T.ic_kind(t) == KINDS['int']); e.assume(z3.And(T.ic_val(t) >= -2**31, T.ic_val(t) < 2**31))
        return [Sym(t)]
    if role == 'S' and slen is not None:
        xs = [z3.Int('%s_%d' % (name, i)) for i in range(slen)]
        for x in xs: e.char_facts(x)
        return [Sym(T.Str(ilist(xs)))]
    if role == 'S': return [Sym(T.Str(z3.Const(name, IL)))]
    if role == 'R':
        t = z3.Const(name, T); e.parser_result_facts(t); return [Sym(t)]
    if role == 'Posv': return [Sym(T.Pos(z3.Int(name + '_l'), z3.Int(name + '_c'), z3.Int(name + '_p')))]
    if role == 'TT': return [SymTmpl(name)]
    if role in PACKROLES:
        if pack is not None:
            r = {'PS': 'P', 'CS': 'C', 'CtS': 'Ct', 'BS': 'B'}[role]
            out = []
            for i in range(pack): out += symparam(e, r, '%s%d' % (name, i + 1))
            return out
        if role == 'PS': return [Seg(z3.Const(name, TL), 'type', None, 'parser')]
        if role == 'BS': return [Seg(z3.Const(name, IL), 'int', 'bool')]
        if role == 'CS': return [Seg(z3.Const(name, IL), 'int', 'char')]
        return [Seg(z3.Const(name, TL), 'type', None, 'charconst')]
    raise Unsupported('role ' + role)

CONS = z3.Function('consumes', T, T, T, T, z3.BoolSort())
PACKROLES = ('PS', 'CS', 'CtS', 'BS')

def shapes_for(con, std, params, bounded=False, light=False):
    """list of dicts {'pack': n, 'n': k}"""
    haspack = any(p.split(':')[0] in PACKROLES for p in params)
    hasn = any(p.split(':')[0] in ('N', 'Nt') for p in params)
    out = [{}]
    if haspack:
        if std == '98': rng = CAP98.get(getattr(con, 'base', con.name), range(0, 5)); out = [{'pack': i} for i in rng]
        elif bounded: out = [{'pack': i} for i in range(0, 5)]
        if (std == '98' or bounded) and getattr(con, 'base', con.name) == 'sequence' and std == '98': out = [s for s in out if s['pack'] > 0]
    if con.explicit98 and std == '98':
        # C++98 strings have a length limit: every length is an obligation of its own
        lens = [l for l in con.lens98 if not (bounded or light) or l in ((0, 1, 2, STR) if light else (0, 1, 2, 3, 7, STR - 1, STR))]
        if hasn: out = [{'slen': l, 'n': k} for l in lens for k in con.explicit98(l)]
        else: out = [{'slen': l} for l in lens]
    elif hasn and bounded:
        out = [dict(s, n=k) for s in out for k in range(0, 4)]
    return out

def nice(e, terms, level):
    """constraints that make a model printable as a program: characters in range, small positions, short texts"""
    lo, hi = (1, 126) if level == 2 else (-128, 127)
    out = []
    def pos(p, guard=None):
        c = [p_prev(p) >= (0 if level == 2 else lo), p_prev(p) <= hi]
        if level == 2: c += [p_line(p) >= 1, p_line(p) <= 1000, p_col(p) >= 1, p_col(p) <= 1000]
        out.append(z3.And(*c) if guard is None else z3.Implies(guard, z3.And(*c)))
    def text(il, guard=None):
        x = il; cs = []
        for _ in range(5):
            cs.append(z3.Or(is_inil(x), z3.And(ihd(x) >= lo, ihd(x) <= hi))); x = itl(x)
        nil = il; alts = []
        for _ in range(5): alts.append(is_inil(nil)); nil = itl(nil)
        cs.append(z3.Or(*alts))
        out.append(z3.And(*cs) if guard is None else z3.Implies(guard, z3.And(*cs)))
    seen = set(); todo = list(terms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t): continue
        seen.add(t.get_id())
        n = t.decl().name()
        if n == 'app2' and e.roles.get(t.arg(0).get_id()) == 'parser':
            pos(T.r_pos(t), T.is_Rej(t)); pos(T.a_pos(t), T.is_Acc(t)); text(T.s_chars(T.a_rem(t)), T.is_Acc(t))
        elif n == 'Pos': pos(t)
        elif t.sort().eq(IL) and t.num_args() == 0 and n != 'inil' and z3.is_const(t): text(t)
        elif n == 'ihd': out.append(z3.And(t >= lo, t <= hi))
        todo.extend(t.children())
    return out

class Verifier:
    def __init__(self, prog, z3_timeout=6000):
        self.prog = prog
        self.e = fresh_engine(prog, z3_timeout=z3_timeout)
        self.ext_cache = {}
        self.solver_time = 0.0
        self.nonvacuous = 0
        self.cur = None
        self.light = False      # C++98 arities and lengths: the extremes only (C19)

    def subject(self, con, params, shape):
        e = self.e
        args = []
        vals = []
        for p in params:
            role, name = p.split(':')
            vs = symparam(e, role, name, shape.get('n'), shape.get('pack'), shape.get('slen'))
            args += vs
            if role in PACKROLES: vals.append(list(vs))
            else: vals.append(con.conv(e, role, vs[0]))
        if con.kind == 'expr':
            env = {}
            i = 0
            for p, val in zip(params, vals):
                role, name = p.split(':')
                if role in PACKROLES: env[name] = list(val)
                else: env[name] = args[i]
                i += len(val) if role in PACKROLES else 1
            v = lambda: K.eval_expr(e, K.parse_expr(con.text) if con.ast is None else con.ast, env)
        elif con.kind == 'rec': v = e.named_rec(con.qname)
        elif con.kind == 'typedef':
            t = self.prog.typedefs.get(con.qname)
            if t is None:
                if con.qname in self.prog.recbyname: v = e.named_rec(con.qname)
                else: raise Unsupported('%s not found' % con.qname)
            else: v = e.ty(t, Env((), {}))
        else: v = e.inst(e.named_tmpl(con.qname), args)
        return v, vals

    def run_root(self, con, params, spec, shape):
        """one symbolic execution (along one path): (code term | IllFormed, spec term | IllFormed)"""
        e = self.e
        e.tokmap = {}
        c = SymCtx(e)
        c.ver = True
        if con.name.startswith('mpl:') or con.name == 'str:c_str': e.disabled = set(e.disabled) | {con.name}
        if con.kind == 'lemma':
            vals = [con.conv(e, p.split(':')[0], symparam(e, *p.split(':'))[0]) for p in params]
            return spec(c, *vals), ic('bool', 1)
        v, vals = self.subject(con, params, shape)
        ap = []; avs = []
        for a in con.apply_params if con.style == 'apply' else ():
            if a == 'S': ap.append(T.Str(z3.Const('S', IL)))
            elif a == 'Pos': ap.append(T.Pos(z3.Int('Pos_l'), z3.Int('Pos_c'), z3.Int('Pos_p')))
            else:
                role, name = a.split(':')
                x = symparam(e, role, name)[0]
                ap.append(con.conv(e, role, x)); avs.append(x); continue
            avs.append(Sym(ap[-1]))
        if con.req is not None:
            q = con.req(c, *vals)
            if q is not True:
                if not e.decide(q): raise PathAbort()
        if con.loop is not None: e.loop_contract = con.loop(c, vals, ap)
        try:
            if con.style == 'apply':
                if con.kind == 'expr': v = v(); e.unfolding = None
                else: e.unfolding = (v.key(), tuple(a.key() for a in avs))
                tm = e.mtmpl(v, 'apply')
                r = e.inst(tm, avs)
                e.complete(r)
                code = e.reify_val(r)
            else:
                if con.kind == 'expr': v = v(); e.unfolding = None
                else: e.unfolding = (v.key(), None)
                e.complete(v)
                if con.arr:
                    a = e.mval(v, con.arr)
                    if not isinstance(a, ArrV): raise Unsupported('not an array')
                    code = T.Str(e.reify_ints([x if isinstance(x, Seg) else e.cast(x, 'char') for x in a.items]))
                elif con.stdout:
                    import fns
                    if con.stdout != True: v = e.mtype(v, con.stdout)
                    e.complete(v)
                    code = fns.construct(e, v)
                elif con.runtext:
                    import fns
                    return fns.text_term(fns.call(e, {'f': {'k': 'depref', 'name': con.runtext, 'q': {'k': 'val', 'v': v}}, 'args': []}, Env((), {}))), spec(c, *vals)
                else: code = e.reify(e.mtype(v, 'type')) if con.noforce else e.reify_val(v)
        except IllFormed as x:
            code = x
        if con.post: return code, tuple(ap)
        try:
            sp = spec(c, *(vals + ap))
        except IllFormed as x:
            sp = x
        return code, sp

    def verify(self, con, bounded=False, only=None):
        """discharge every obligation of a contract; yields Result"""
        if getattr(con, 'custom', None):
            yield from con.custom(self, con, bounded)
            return
        variants = [('', con.params, con.spec)] + [(k, p, s) for k, (p, s) in (con.variants or {}).items()]
        for vn, params, spec in variants:
            for shape in shapes_for(con, self.prog.std, params, bounded, self.light):
                name = con.name + (('{%s}' % vn) if vn else '') + ('' if not shape else str(sorted(shape.items())))
                yield from self.verify_shape(con, name, params, spec, shape, vn)

    def verify_shape(self, con, name, params, spec, shape, vname=''):
        e = self.e
        e.merge_memo = {}
        self.covered = False
        n = 0; okpaths = 0
        try:
            for out in e.explore(lambda: self.run_root(con, params, spec, shape)):
                n += 1
                if out[0] == 'ill':
                    yield Result('%s#%d' % (name, n), 'unsupported', 'ill-formed set-up: ' + out[1].why); continue
                code, sp = out[1]
                okpaths += not isinstance(code, IllFormed)
                self.cur = (con, vname, params, spec, shape)
                st, detail, data = self.compare_post(e, con.post, code, sp) if con.post else self.compare(e, code, sp)
                if st == 'discharged' and not self.covered and e.check() == z3.sat: self.covered = True
                yield Result('%s#%d' % (name, n), st, detail, data, list(e.log))
        except Unsupported as x:
            yield Result(name + '#%d' % (n + 1), 'unsupported', str(x))
        except RecursionError:
            yield Result(name + '#%d' % (n + 1), 'unsupported', 'recursion limit')
        if n == 0:
            yield Result(name, 'unsupported', 'no feasible path (vacuous)')
        elif self.covered: self.nonvacuous += 1

    # ---------------------------------------------------------------- comparison
    def compare(self, e, code, sp):
        if isinstance(code, IllFormed) and getattr(sp, 'diag', None) is not None:
            return self.compare_diag(e, code, sp.diag)
        if isinstance(code, IllFormed) and isinstance(sp, IllFormed): return 'discharged', 'ill-formed as specified', None
        if isinstance(sp, IllFormed):
            if e.check() == z3.unsat: return 'discharged', 'infeasible', None
            return ('refuted', 'accepted although the specification says ill-formed (%s); code gives %s' % (sp.why, short(code)), self.case_data(e, [code]))
        if isinstance(code, IllFormed):
            if e.check() == z3.unsat: return 'discharged', 'infeasible', None
            return 'refuted', 'does not compile: %s; expected %s; in %s' % (code.why, short(sp), ' / '.join(code.trace[-3:])[:600]), dict(self.case_data(e, [sp]), ill=code.why)
        if code.eq(sp): return 'discharged', '', None
        goal = code == sp
        r = e.check(z3.Not(goal))
        if r == z3.unsat: return 'discharged', '', None
        # extensionality of fold arguments
        try:
            code2, sp2, changed = self.canonical(e, code, sp)
        except Unsupported as x:
            return 'undecided', 'extensionality: ' + str(x), None
        if changed:
            # the path condition with the same replacement holds as well
            pcs = [y for y, x in ((z3.substitute(x, *changed), x) for x in e.pc) if not y.eq(x)]
            r = e.check(z3.Not(code2 == sp2), *pcs)
            if r == z3.unsat: return 'discharged', 'by extensionality', None
        if z3.sat == r or r == z3.unknown:
            code3, sp3 = norm(e, code2), norm(e, sp2)
            if not (code3.eq(code2) and sp3.eq(sp2)):
                r = z3.unsat if code3.eq(sp3) else e.check(z3.Not(code3 == sp3))
                if r == z3.unsat: return 'discharged', 'after simplification under the path condition', None
                code, sp = code3, sp3
        if r == z3.unknown: return 'undecided', 'solver: unknown; code %s spec %s' % (short(code), short(sp)), None
        rec = has_rec(code) or has_rec(sp)
        st = 'undecided' if rec else 'refuted'
        data = self.case_data(e, [code, sp], z3.Not(code == sp)) if e is self.e else {}
        return st, 'code gives %s; specification says %s; when %s' % (short(code), short(sp), '; '.join(short(x, 120) for x in e.pc[-8:])), data

    def case_data(self, e, terms, *extra):
        """a concrete case from a model of the path (and extra): realistic values first, any value last"""
        import battery
        data = {}
        if self.cur is None or getattr(self, 'insub', 0): return data
        for level in (2, 1, 0):
            if level == 0 and e.check(*extra) != z3.sat: return data
            if level and e.check(*(list(extra) + nice(e, terms + list(e.pc), level))) != z3.sat: continue
            try: m = e.solver.model()
            except z3.Z3Exception: continue
            data['model'] = ' '.join(str(m).split())[:1500]
            try:
                data['case'] = battery.model_case(self.prog.std, self.cur, m, terms + list(e.pc))
                data.pop('nocase', None)
                return data
            except (Unsupported, battery.Skip, IllFormed, KeyError) as x: data['nocase'] = str(x)
        return data

    def compare_diag(self, e, code, diag):
        """one of the instantiations the compiler reports names the line, the column and the message"""
        want = [nt('int', diag[0]), nt('int', diag[1]), diag[2]]
        seen = []
        for v in reversed(getattr(code, 'insts', ())):
            if not isinstance(v, Inst): continue
            try: args = [e.reify(a) for a in v.args]
            except (Unsupported, IllFormed): continue
            seen.append(e.show(v))
            i = 0
            for a in args:
                if i < 3 and (a.eq(want[i]) or e.check(z3.Not(a == want[i])) == z3.unsat): i += 1
            if i == 3: return 'discharged', 'fails with the specified diagnostic', None
        return 'refuted', 'compilation fails without a diagnostic carrying the position and message of the failure: %s; reported: %s' % (code.why, ' / '.join(seen[:4])[:500]), self.case_data(e, list(diag))

    # ---------------------------------------------------------------- consumption
    def consumption_facts(self, e, S, Pos, terms):
        """instances of: CONS is reflexive, contains every one-character step, is transitive from (S, Pos), and contains what sub-parsers do"""
        edges = []; steps = {}; poss = {Pos.get_id(): Pos}
        seen = set()
        todo = list(terms)
        while todo:
            t = todo.pop()
            if t.get_id() in seen or not z3.is_app(t): continue
            seen.add(keep(t).get_id())
            n = t.decl().name()
            if n == 'app2' and (e.roles.get(t.arg(0).get_id()) == 'parser'): edges.append((t, t.arg(1), t.arg(2)))
            elif n == 'app1' and e.roles.get(t.arg(0).get_id()) == 'errfn': edges.append((t, S, Pos))
            elif n.startswith('spec_') and t.sort().eq(T) and n[5:] in RECS:
                self.rec_parsers(e, RECS[n[5:]], t)
                edges.append((t, t.arg(t.num_args() - 2), t.arg(t.num_args() - 1)))
            elif n == 'itl': steps[t.arg(0).get_id()] = t.arg(0)
            todo.extend(t.children())
        fs = [CONS(S, Pos, S, Pos)]
        es = []
        for t, s, p in edges:
            fs.append(z3.Implies(z3.And(T.is_Str(s), T.is_Pos(p)), z3.Or(T.is_Rej(t), z3.And(T.is_Acc(t), T.is_Str(T.a_rem(t)), T.is_Pos(T.a_pos(t))))))
            fs.append(z3.Implies(T.is_Acc(t), CONS(s, p, T.a_rem(t), T.a_pos(t))))
            es.append((T.is_Acc(t), s, p, T.a_rem(t), T.a_pos(t)))
            poss[T.a_pos(t).get_id()] = T.a_pos(t)
        c = SymCtx(e)
        layer = list(poss.values())
        for _ in range(len(steps) if len(steps) < 4 else 4):
            nxt = []
            for x in steps.values():
                for p in layer:
                    q = K.next_pos(c, p, ihd(x)); keep(q)
                    es.append((T.is_Pos(p) if not is_cons_app(p, 'Pos') else z3.BoolVal(True), T.Str(x), p, T.Str(itl(x)), q)); nxt.append(q)
                    fs.append(z3.Implies(not_(is_inil(x)), CONS(T.Str(x), p, T.Str(itl(x)), q)))
            layer = nxt
            if len(es) > 400: break
        for g, s, p, s2, p2 in es: fs.append(z3.Implies(z3.And(g, CONS(S, Pos, s, p), CONS(s, p, s2, p2)), CONS(S, Pos, s2, p2)))
        return fs

    def rec_parsers(self, e, R, t):
        """the parsers handed to a recursive combinator: the user's (assumed), or proved here"""
        n = t.num_args()
        for i in range(n - 2):
            a = t.arg(i)
            kind = (R.tokens or {}).get(i, (None,))[0] if R.tokens else None
            if kind == 'parser':
                if e.roles.get(a.get_id()) == 'parser': continue
                self.consuming(e, a)
            elif a.sort().eq(TL):
                l = a
                while True:
                    if is_cons_app(l, 'tcons'): self.consuming(e, l.arg(0)); l = l.arg(1); continue
                    if is_cons_app(l, 'ttl'): l = l.arg(0); continue
                    break
                if not (is_cons_app(l, 'tnil') or z3.is_const(l)): raise Unsupported('parsers of a pack expansion')

    def consuming(self, e, tok):
        k = ('consuming', tok.get_id())
        memo = self.__dict__.setdefault('_cons', {})
        if e.roles.get(tok.get_id()) == 'parser': return
        v = e.tokmap.get(tok.get_id())
        if v is None: raise Unsupported('unknown parser in a recursive combinator: ' + tshow(tok))
        if memo.get(k): return
        memo[k] = True
        S0, P0 = self.freshSP()
        def go(e2):
            r = SymCtx(e2).run(v, S0, P0)
            return self.compare_post(e2, 'consumes', r, (S0, P0))[0] == 'discharged'
        if not self.sub(e, go): memo[k] = False; raise Unsupported('a parser used in the implementation is not shown to consume consistently: ' + tshow(tok))

    def compare_post(self, e, post, code, SP):
        S, Pos = SP
        if isinstance(code, IllFormed):
            if e.check() == z3.unsat: return 'discharged', 'infeasible', None
            return 'undecided', 'does not compile: ' + code.why, None
        if is_cons_app(code, 'Rej'): return 'discharged', '', None
        if post == 'stays':
            goal = z3.Implies(T.is_Acc(code), z3.And(a_rem(code) == S, a_pos(code) == Pos)); fs = []
        else:
            try: fs = self.consumption_facts(e, S, Pos, [code] + list(e.pc))
            except Unsupported as x: return 'undecided', str(x), None
            goal = z3.Implies(T.is_Acc(code), CONS(S, Pos, a_rem(code), a_pos(code)))
        r = e.check(z3.Not(goal), *fs)
        if r == z3.unsat: return 'discharged', '', None
        if r == z3.unknown: return 'undecided', 'solver: unknown', None
        data = {}
        if self.cur is not None and not getattr(self, 'insub', 0):
            import battery
            try: data['case'] = self.consistent_case(e, code, S, Pos, post)
            except (Unsupported, battery.Skip, IllFormed, KeyError) as x: data['nocase'] = str(x)
        return 'refuted', 'code accepts with %s, which is not shown to be the start advanced over the consumed characters; when %s' % (
            short(code), '; '.join(short(x, 120) for x in e.pc[-8:])), data

    def consistent_case(self, e, code, S, Pos, post):
        """a concrete input with consistent sub-parsers on which the postcondition fails"""
        import battery
        c = SymCtx(e)
        def reach(s, p, s2, p2, depth):
            alts = [z3.And(s2 == s, p2 == p)]
            il = s_chars(s)
            g = []
            for _ in range(depth):
                g = g + [not_(is_inil(il))]
                p = K.next_pos(c, p, ihd(il)); il = itl(il)
                alts.append(and_(*g, s2 == T.Str(il), p2 == p))
            return z3.Or(*alts)
        cs = []
        seen = set(); todo = [code] + list(e.pc)
        while todo:
            t = todo.pop()
            if t.get_id() in seen or not z3.is_app(t): continue
            seen.add(t.get_id())
            if t.decl().name() == 'app2' and e.roles.get(t.arg(0).get_id()) == 'parser':
                cs.append(z3.Implies(T.is_Acc(t), reach(t.arg(1), t.arg(2), T.a_rem(t), T.a_pos(t), 2)))
            todo.extend(t.children())
        il = s_chars(S); il4 = itl(itl(itl(itl(il))))
        cs.append(z3.Or(is_inil(il), is_inil(itl(il)), is_inil(itl(itl(il))), is_inil(itl(itl(itl(il)))), is_inil(il4)))
        cs += [p_line(Pos) >= 1, p_line(Pos) < 1000, p_col(Pos) >= 1, p_col(Pos) < 1000, p_prev(Pos) >= 0, p_prev(Pos) < 127]
        x = il
        for _ in range(4):
            cs.append(z3.And(ihd(x) >= 9, ihd(x) < 127)); x = itl(x)
        bad = z3.Not(reach(S, Pos, a_rem(code), a_pos(code), 4)) if post == 'consumes' else z3.Not(z3.And(a_rem(code) == S, a_pos(code) == Pos))
        r = e.check(T.is_Acc(code), bad, *cs)
        if r != z3.sat: raise battery.Skip('no consistent model')
        m = e.solver.model()
        return battery.model_case(self.prog.std, self.cur, m, [code] + list(e.pc))

    def canonical(self, e, code, sp):
        apps = {}
        def walk(t, seen):
            if t.get_id() in seen: return
            seen.add(t.get_id())
            if z3.is_app(t):
                n = t.decl().name()
                if n.startswith('spec_') and n[5:] in RECS: apps.setdefault(n[5:], []).append(t)
                for ch in t.children(): walk(ch, seen)
        seen = set()
        walk(sp, seen)
        nsp = {k: len(v) for k, v in apps.items()}
        walk(code, seen)
        for x in e.pc: walk(x, seen)
        changed = []
        for rn, ts in apps.items():
            R = RECS[rn]
            for idx, (kind, st) in (R.tokens or {}).items() if R.tokens else ():
                ref = None
                for t in ts:
                    tk = t.arg(idx)
                    if ref is None: ref = t; continue
                    rt = ref.arg(idx)
                    if tk.eq(rt): continue
                    if kind == 'parser': ok = self.ext_parser(e, tk, rt)
                    else: ok = self.ext_op(e, R, t, ref, idx, st)
                    if ok:
                        code = z3.substitute(code, (tk, rt)); sp = z3.substitute(sp, (tk, rt)); changed.append((tk, rt))
        return code, sp, changed

    def sub(self, e, fn, extra=()):
        """explore fn on a fresh engine under e's path facts; True if every path satisfies fn's goal"""
        e2 = fresh_engine(self.prog, z3_timeout=e.z3_timeout)
        e2.disabled = e.disabled
        e2.roles = e.roles
        e2.base_facts = list(e.base_facts) + list(e.pc) + list(extra)
        tm = dict(e.tokmap)
        saved = self.e
        self.e = e2
        e2.deadline = e.deadline
        self.insub = getattr(self, 'insub', 0) + 1
        try:
            for out in e2.explore(lambda: (setattr(e2, 'tokmap', dict(tm)), fn(e2))[1]):
                if out[0] == 'ill': return False
                if out[1] is not True: return False
            return True
        finally:
            self.e = saved
            self.insub -= 1
            e.used_contracts |= e2.used_contracts
            e.loc_used |= e2.loc_used
            e.assumptions_used |= e2.assumptions_used
            for k in ('decisions', 'solver_calls', 'solver_time', 'insts'): e.stats[k] += e2.stats[k]

    _n = itertools.count()
    def freshSP(self):
        k = next(self._n)
        return T.Str(z3.Const('S!%d' % k, IL)), T.Pos(z3.Int('l!%d' % k), z3.Int('c!%d' % k), z3.Int('p!%d' % k))

    def ext_parser(self, e, ta, tb):
        S0, P0 = self.freshSP()
        def go(e2):
            c = SymCtx(e2)
            a = c.run(c.V(ta), S0, P0); b = c.run(c.V(tb), S0, P0)
            return self.compare(e2, a, b)[0] == 'discharged'
        return self.sub(e, go)

    def ext_op(self, e, R, t1, t2, idx, st):
        for inv in (lambda s: z3.BoolVal(True), lambda s: T.is_SeqT(s), lambda s: T.is_Str(s), lambda s: z3.And(T.is_ICt(s), T.ic_kind(s) == KINDS['int'])):
            if st is not None:
                if not (e.entails(inv(t1.arg(st))) and e.entails(inv(t2.arg(st)))): continue
            else:
                # initial state comes from the start parser (argument 1)
                S0, P0 = self.freshSP()
                def init(e2):
                    c = SymCtx(e2)
                    r = c.run(c.V(t1.arg(1)), S0, P0)
                    return e2.entails(z3.Implies(T.is_Acc(r), inv(T.a_res(r))))
                if not z3.is_true(inv(t1)) and not self.sub(e, init): continue
            S1, P1 = self.freshSP()
            s0 = z3.Const('st!%d' % next(self._n), T)
            def go(e2):
                c = SymCtx(e2)
                r = c.run(c.V(t1.arg(0)), S1, P1)
                if e2.decide(is_('Rej', r)): return True
                a = c.app(c.V(t1.arg(idx)), s0, a_res(r)); b = c.app(c.V(t2.arg(idx)), s0, a_res(r))
                if self.compare(e2, a, b)[0] != 'discharged': return False
                return e2.entails(inv(a))
            try:
                if self.sub(e, go, [inv(s0)]): return True
            except Unsupported: pass
        return False

_PROJ = {'a_res': a_res, 'a_rem': a_rem, 'a_pos': a_pos, 'r_msg': r_msg, 'r_pos': r_pos, 'ic_val': ic_val, 's_chars': s_chars, 'sq_elems': sq_elems,
         'ihd': ihd, 'itl': itl, 'thd': thd, 'ttl': ttl, 'p_line': p_line, 'p_col': p_col, 'p_prev': p_prev}
def norm(e, t):
    """resolve conditionals decided by the path condition and re-normalise list operations"""
    memo = {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][1]
        r = t
        if z3.is_app(t) and t.num_args() and not z3.is_bool(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                cc = e.simp(c)
                if z3.is_true(cc): r = go(t.arg(1))
                elif z3.is_false(cc): r = go(t.arg(2))
                else: r = ite(c, go(t.arg(1)), go(t.arg(2)))
            else:
                a = [go(x) if not z3.is_bool(x) else x for x in t.children()]
                n = t.decl().name()
                if n in _PROJ: r = _PROJ[n](a[0])
                elif n == 'snoc': r = snoc(a[0], a[1])
                elif n == 'isnoc': r = isnoc(a[0], a[1])
                else: r = t.decl()(*a)
        memo[i] = (t, keep(r))
        return r
    return go(t)
def has_rec(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name().startswith(('spec_', 'map')): return True
            st.extend(x.children())
    return False
def short(t, n=300):
    return tshow(t, n // 6)
