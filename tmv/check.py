"""Decides one property: extracts the templates from /repo's working tree, discharges
every contract the property depends on, replays what is not discharged against the
real compiler, writes evidence."""
import sys, os, time, json, shutil, tempfile, subprocess, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
OUT = os.environ.get('TMV_OUT') or os.path.join(ROOT, 'evidence')
import limits
STDS = ('98',) if limits.SET else ('98', '11', '14')
T0 = time.time()
PROG = {}
OPT = {}

def build_tool():
    out = os.path.join(ROOT, 'build', 'tmv-dump')
    src = os.path.join(HERE, 'dump.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                    '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
    os.replace(tmp, out)
    return out

# ---------------------------------------------------------------- worker side
def task_verify(a):
    """verify one contract in one standard -> plain data"""
    std, name, disabled, bounded, limit = a
    import verify, contracts as K, engine
    t = time.time()
    con = K.CON[name]
    V = verify.Verifier(PROG[std], z3_timeout=OPT.get('z3_timeout', 6000))
    V.e.disabled = set(disabled)
    V.e.deadline = t + limit
    if OPT.get('cross'):
        import random
        V.e.record = {'seen': 0, 'keep': OPT['cross'], 'smt': [], 'rng': random.Random('%s/%s/%s' % (OPT.get('seed'), std, name))}
    res = []
    try:
        for r in V.verify(con, bounded=bounded):
            res.append((r.name, r.status, r.detail[:1500] if r.status != 'discharged' else r.detail[:80], r.data))
            if sum(1 for x in res if x[1] != 'discharged') >= 6: break
    except engine.Unsupported as x:
        res.append((name, 'unsupported', str(x), None))
    except Exception as x:
        res.append((name, 'unsupported', 'internal: ' + ''.join(traceback.format_exception_only(type(x), x))[:300] + traceback.format_exc()[-500:], None))
    e = V.e
    return {'std': std, 'name': name, 'res': res, 'used': sorted(e.used_contracts), 'locs': sorted(x for x in e.loc_used if x), 'stats': e.stats,
            'assume': sorted(e.assumptions_used), 'time': time.time() - t, 'nonvacuous': V.nonvacuous, 'bounded': bounded, 'disabled': list(disabled),
            'smt': V.e.record['smt'] if V.e.record else [], 'unsat_seen': V.e.record['seen'] if V.e.record else 0}

def task_cvc5(text):
    """the same query for a second solver"""
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False); f.write('(set-logic ALL)\n' + text); f.close()
    try:
        r = subprocess.run(['cvc5', '--tlimit=20000', f.name], capture_output=True, text=True, timeout=60)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error: ' + (r.stderr.strip().split('\n') or [''])[0][:200]
        return o if o in ('sat', 'unsat', 'unknown') else 'unknown' if 'timeout' in o + r.stderr else 'error: ' + o[:200]
    except subprocess.TimeoutExpired: return 'unknown'
    finally: os.unlink(f.name)

def task_cases(a):
    std, name, seed, n = a[:4]
    import battery, contracts as K
    try: return battery.cases_for(K.CON[name], std, seed, n, *a[4:])
    except Exception as x:
        return []

def extract_one(a):
    std, work = a
    import extract
    try:
        top, v1 = extract.all_headers()
        extra = [h for h in v1 if h.endswith('/v1/swap.hpp')]      # (no public header includes it)
        out, body, text = extract.run(std, top + extra, work)
        inc = extract.headers_included(text)
        return std, out, len(inc), None
    except extract.ExtractError as x:
        return std, None, 0, str(x)

def digest_one(a):
    import extract
    try: return extract.digest(a[0], extract.all_headers()[0], a[1])
    except extract.ExtractError as x: return 'error: ' + str(x)[:300]

def task_value_macro(a):
    import literal
    return literal.value_macro(*a)

def prepare_literals(a):
    import literal, extract
    try: return a[0], literal.prepare(*a), None
    except extract.ExtractError as x: return a[0], None, str(x)

# ---------------------------------------------------------------- driver
class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix='tmv_%s_' % prop)
        self.done = {}
        self.violations = []
        self.notes = []
        self.bounded = []
        self.replays = 0
        self.known = load_known(prop)
        self.known_hit = []

    def newer(self):
        """C++17 and C++20 are the C++14 program unless the preprocessor says otherwise; then they are programs of their own"""
        if limits.SET: return
        global STDS
        with mp.Pool(3) as p: d14, d17, d20 = p.map(digest_one, [(s, self.work) for s in ('14', '17', '20')], chunksize=1)
        new = [s for s, d, o in (('17', d17, (d14,)), ('20', d20, (d14, d17))) if d not in o]
        STDS = STDS + tuple(new)
        if self.prop == 'C15': import literal; literal.STDS15 = literal.STDS15 + tuple(new)
        self.same = {s: 'same program as C++14' for s in ('17', '20') if s not in new}
        if '20' in self.same and d20 != d14: self.same['20'] = 'same program as C++17'
        if new: self.notes.append('the preprocessed library differs from C++14 in C++' + ', C++'.join(new) + ': verified separately')
    def extract(self):
        from engine import Program
        if self.prop == 'C15': return self.extract_literals()
        if self.prop == 'C19': return
        self.extract_full()
    def extract_full(self):
        from engine import Program
        with mp.Pool(len(STDS)) as p:
            rs = p.map(extract_one, [(s, self.work) for s in STDS], chunksize=1)
        self.hdrs = {}
        for std, out, n, err in rs:
            if err: self.notes.append('extraction failed for C++%s: %s' % (std, err[:600])); continue
            PROG[std] = Program(out, std)
            self.hdrs[std] = n
            os.unlink(out)

    def extract_literals(self):
        import literal, extract
        from engine import Program
        self.hdrs = {}
        with mp.Pool(2) as p: rs = p.map(prepare_literals, [(s, self.work, self.tier) for s in literal.STDS15])
        for std, res, err in rs:
            if err:
                self.notes.append('extraction failed for C++%s: %s' % (std, err[:600]))
                res = (None, [{'idx': 0, 'lo': 0, 'hi': literal.MAXL, 'ok': False}], 0, 0)
            out, info, n, k = res
            literal.register(std, info)
            if out: PROG[std] = Program(out, std)
            self.hdrs[std] = n
            self.extra_cov = {'limits_expanded': literal.MAXL + 1, 'expansion_classes': {**getattr(self, 'extra_cov', {}).get('expansion_classes', {}), std: len(info)}, 'configurations_preprocessed_separately': k}

    def decide_headers(self):
        import headers as H, contracts as K, contracts_core
        own = H.owned()
        self.final = {}
        hs = sorted(H.TABLE)
        ts = [(s, h, own[h], self.work, 60 if self.tier == 'quick' else 200) for h in hs for s in STDS]
        ts.sort(key=lambda t: (t[0] != '98', -len(own[t[1]])))
        rdir = os.path.join(OUT, 'replay'); os.makedirs(rdir, exist_ok=True)
        self.hdrs = {s: len(hs) for s in STDS}
        rs = self.pmap(H.check_header, ts)
        open_ = []
        for r in rs:
            k = (r['std'], r['name'])
            self.done[k] = r
            self.replays += r.get('programs', 0)
            base = os.path.join(rdir, 'C19_cpp%s_%s' % (k[0], k[1].replace('/', '_')))
            cmd = '// build: g++ -std=c++%s -w -fsyntax-only -I /repo/include FILE   (must compile)\n' % k[0]
            bad = [x for x in r['res'] if x[1] != 'discharged']
            if bad and bad[0][0] == 'names':
                open(base + '.cpp', 'w').write('// property C19: <%s> in C++%s: not self-contained, or a public name is not the entity of the current version\n' % (H.path(k[1]), k[0]) + cmd
                    + ''.join('// %s\n' % l for l in bad[0][2].split('\n')[:30]) + H.names_program(k[1], k[0]))
                self.violation(k, base + '.cpp', '<%s> in C++%s' % (H.path(k[1]), k[0]), True)
            elif r.get('user'):
                open(base + '.cpp', 'w').write('// property C19: <%s> in C++%s: using what the header declares does not compile unless other headers are included\n' % (H.path(k[1]), k[0]) + cmd
                    + ''.join('// obligation %s: %s: %s\n' % (x[0], x[1], x[2][:300].replace('\n', ' ')) for x in bad[:3]) + ''.join('// %s\n' % l for l in r['user'][1].split('\n')[:30]) + r['user'][0])
                self.violation(k, base + '.cpp', '<%s> in C++%s' % (H.path(k[1]), k[0]), True)
            elif r.get('broken'): self.notes.append('%s (C++%s): the program using it does not compile with all headers either: %s' % (k[1], k[0], r['broken']))
            elif bad: open_.append((k, r, bad))
        if open_:
            # is the same contract discharged when all headers are there?  (otherwise it is not this property's matter)
            self.extract_full()
            todo = sorted({(k[0], n) for k, r, b in open_ for n in r.get('bad', []) or own[k[1]] if k[0] in PROG and K.CON[n].applies_std(k[0])})
            full = {(r['std'], r['name']): r for r in self.pmap(task_verify, [(s, n, (), False, 60) for s, n in todo])}
            for k, r, bad in open_:
                mine = [n for n in r.get('bad', []) or own[k[1]] if not self.bad(full.get((k[0], n), {'res': []}))]
                if mine: self.bounded.append('%s (C++%s): not proved alone (%s: %s); compiled program agrees' % (k[1], k[0], bad[0][0], bad[0][2][:160]))
                else: self.notes.append('%s (C++%s): %s is not discharged with all headers either' % (k[1], k[0], r.get('bad')))
        self.extra_cov = {'headers': len(hs), 'header_programs_verified': len(rs), 'public_names_checked': sum(len(v) for v in H.TABLE.values()),
                          'contracts_discharged_per_header_program': sum(len(r['contracts']) for r in rs), 'user_programs_compiled': self.replays,
                          'cpp98_shapes': 'extreme arities and string lengths only (0, 1, 2, max); all of them are discharged by C05-C14'}

    # -------- other values of the C++98 limits: the same contracts in a process of their own
    def start_limits(self):
        self.kids = []
        if limits.SET: return
        cfgs = limits.PROPS.get(self.prop, ())
        if self.tier != 'quick': cfgs = limits.PROPS_THOROUGH.get(self.prop, cfgs)
        for i, c in enumerate(cfgs):
            o = os.path.join(self.work, 'lim%d' % i)
            log = open(os.path.join(self.work, 'lim%d.log' % i), 'w+')
            self.kids.append((i, c, o, log, subprocess.Popen([sys.executable, os.path.abspath(__file__), self.prop, '--tier', self.tier],
                              env=dict(os.environ, TMV_LIMITS=c, TMV_OUT=o), stdout=log, stderr=subprocess.STDOUT)))
    def join_limits(self):
        cov = []
        for i, c, o, log, p in self.kids:
            p.wait(); log.seek(0); out = log.read(); log.close()
            try: ev = json.load(open(os.path.join(o, self.prop + '.json')))['coverage']
            except (OSError, ValueError): self.notes.append('C++98 with %s: no result: %s' % (c, out[-300:])); cov.append({'limits': c, 'result': 'none'}); continue
            cov.append({'limits': c, 'contracts': ev['contracts'], 'obligations': ev['obligations'], 'discharged': ev['discharged'], 'solver_time_s': ev['solver_time_s'],
                        'bounded_not_proved': ev['bounded_not_proved'], 'notes': ev['notes'], 'verifier_vs_compiler_programs': ev.get('verifier_vs_compiler_programs')})
            self.bounded += ['with %s: %s' % (c, x) for x in ev['bounded_not_proved']]
            title = '?'
            for l in out.split('\n'):
                if l.startswith('# '): title = l[2:]
                if not l.startswith('VIOLATION '): continue
                src = l.split('replay=')[1].split(' ')[0]
                dst = os.path.join(OUT, 'replay', 'limits%d_%s' % (i, os.path.basename(src)))
                os.makedirs(os.path.dirname(dst), exist_ok=True); shutil.copy(src, dst)
                self.violations.append((('98', c), dst, title + ' with ' + c, not l.endswith('no-failing-input-found')))
        if cov: self.extra_cov = dict(getattr(self, 'extra_cov', {}), other_cpp98_limits=cov)
        if any(v[3] for v in self.violations): self.violations = [v for v in self.violations if v[3]]

    def pmap(self, fn, tasks):
        if not tasks: return []
        with mp.Pool(min(8, len(tasks)), maxtasksperchild=None) as p:
            return p.map(fn, tasks, chunksize=1)

    def verify_closure(self, roots):
        """roots: {(std, name)}; verifies them and, transitively, every contract they rely on"""
        import contracts as K
        todo = set(roots)
        while todo:
            ts = sorted(todo, key=lambda x: (-HEAVY.get(x[1], 0), -getattr(K.CON[x[1]], 'lit', {}).get('hi', 0)))
            for r in self.pmap(task_verify, [(s, n, (), False, self.limit) for s, n in ts]):
                self.done[(r['std'], r['name'])] = r
            todo = {(s, u) for (s, n), r in self.done.items() for u in r['used'] if u in K.CON} - set(self.done)

    def bad(self, r): return any(x[1] != 'discharged' for x in r['res']) or not r['res']

    def closure(self, key):
        out = set(); st = [key]
        while st:
            k = st.pop()
            if k in out or k not in self.done: continue
            out.add(k)
            st.extend((k[0], u) for u in self.done[k]['used'])
        return out

    def relimit(self, k, n):
        """time for one retry; many retries share a budget"""
        if self.tier != 'quick': return self.limit
        return 20 if self.prop == 'C15' else max(5, min(self.limit, 200 * 8 // max(n, 1)))

    def decide(self):
        import contracts as K
        if self.prop == 'C19': return self.decide_headers()
        names = [n for n, c in K.CON.items() if c.prop == self.prop or self.prop in c.also]
        roots = {(s, n) for n in names for s in STDS if K.CON[n].applies_std(s) and s in PROG}
        noprog = {(s, n) for n in names for s in STDS if K.CON[n].applies_std(s) and s not in PROG and not K.CON[n].internal}
        self.limit = (60 if self.prop != 'C15' else 150) if self.tier == 'quick' else 200
        self.verify_closure(roots)
        self.final = {}
        suspect = {}
        for k in sorted(roots):
            cl = self.closure(k)
            badc = {x for x in cl if self.bad(self.done[x])}
            if not badc: self.final[k] = ('proved', self.done[k]); continue
            if K.CON[k[1]].internal:
                self.final[k] = ('internal-failed', self.done[k]); continue
            suspect[k] = badc
        # internal contracts that fail concern every public root that relies on them; demote them and retry
        if suspect:
            # ... inlining whatever (transitively) relies on a contract that fails
            tainted = {k for k in self.done if any(self.bad(self.done[x]) for x in self.closure(k))}
            again = self.pmap(task_verify, [(k[0], k[1], tuple(sorted({x[1] for x in self.closure(k) if x in tainted} - {k[1]})), False, self.relimit(k, len(suspect))) for k in sorted(suspect)])
            open_ = {}
            for r in again:
                k = (r['std'], r['name'])
                extra = {(k[0], u) for u in r['used']} - set(self.done)
                if extra: self.verify_closure(extra)
                dep_bad = any(self.bad(self.done[x]) for u in r['used'] if u != k[1] for x in self.closure((k[0], u)))
                if not self.bad(r) and not dep_bad: self.final[k] = ('proved', r)
                else: open_[k] = r
            # bounded shapes with every failing contract inlined
            if open_:
                allbad = {k[1] for k, r in self.done.items() if self.bad(r)}
                nxt = self.pmap(task_verify, [(k[0], k[1], tuple(sorted(allbad - {k[1]})), True, self.relimit(k, len(open_))) for k in sorted(open_)])
                for r in nxt:
                    k = (r['std'], r['name'])
                    if not self.bad(r) and k[1] not in {u for u in r['used']} and not any(self.bad(self.done[x]) for u in r['used'] for x in self.closure((k[0], u))):
                        self.final[k] = ('bounded', r)
                    else:
                        refuted = [x for q in (open_[k], r) for x in q['res'] if x[1] == 'refuted']
                        self.final[k] = ('refuted' if refuted else 'open', r, refuted, open_[k])
        for k in sorted(noprog): self.final[k] = ('open', None, [], None)
        self.replay()
        if self.prop == 'C15': self.value_macro()
        if self.tier != 'quick' or self.prop != 'C15': self.differential(60 if self.tier != 'quick' else 2 if self.prop == 'C17' else 8)
        if self.tier != 'quick': self.second_solver()

    def value_macro(self):
        import literal
        cov = {}
        for std, (proved, src, err) in zip(literal.STDS15, self.pmap(task_value_macro, [(s, self.work) for s in literal.STDS15])):
            cov[std] = 'the expansion is an object of the class BOOST_METAPARSE_STRING expands to' if proved else 'bounded: literals of 0..32 characters compiled'
            if not proved and not err: self.bounded.append('BOOST_METAPARSE_STRING_VALUE (C++%s): compiled for literals of 0..32 characters' % std)
            if err:
                path = os.path.join(OUT, 'replay', 'C15_cpp%s_string_value.cpp' % std); os.makedirs(os.path.dirname(path), exist_ok=True)
                open(path, 'w').write('// property C15: BOOST_METAPARSE_STRING_VALUE is not an object of type BOOST_METAPARSE_STRING\n// build: g++ -std=c++%s -w -fsyntax-only -I /repo/include FILE   (must compile)\n' % std
                    + ''.join('// %s\n' % l for l in err.split('\n')[:20]) + src)
                self.violation((std, 'BOOST_METAPARSE_STRING_VALUE'), path, 'BOOST_METAPARSE_STRING_VALUE in C++%s' % std, True)
        self.extra_cov = dict(getattr(self, 'extra_cov', {}), string_value=cov)

    def differential(self, n):
        """verifier and compiler on concrete programs, for the contracts that are proved (guards the trusted evaluator)"""
        import battery, contracts as K
        ks = sorted(k for k, v in self.final.items() if v[0] == 'proved' and not K.CON[k[1]].internal)
        if self.prop == 'C17' and self.tier == 'quick': ks = [k for k in ks if k[0] == '11']
        gen = dict(zip(ks, self.pmap(task_cases, [(k[0], k[1], self.seed, n, self.tier == 'quick') for k in ks])))
        rdir = os.path.join(OUT, 'replay'); os.makedirs(rdir, exist_ok=True)
        bystd = {}
        for k in ks:
            for c in gen[k] or ():
                c.key = k; bystd.setdefault(k[0], []).append(c)
        if '14' in bystd and self.tier != 'quick': bystd['17'] = bystd['14']
        n = {}; hit = {}
        for std, cases in bystd.items():
            for c, st, text in battery.run_cases(cases, std, os.path.join(self.work, 'd' + std), chunk=40 if len(cases) > 320 else 8 + len(cases) // 10):
                n[std] = n.get(std, 0) + 1
                if st != 'ok': hit.setdefault((std, c.key[1]), (c, st, text))
        for k in sorted(hit):
            c, st, text = hit[k]
            path = os.path.join(rdir, '%s_cpp%s_%s.cpp' % (self.prop, k[0], __import__('re').sub('[^A-Za-z0-9_]+', '_', k[1])))
            battery.write_replay(c, st, text, path, self.prop, 'the verifier accepts this contract; the compiled program disagrees with it')
            self.violation(k, path, '%s in C++%s: %s' % (k[1], k[0], st), True)
        self.extra_cov = dict(getattr(self, 'extra_cov', {}), verifier_vs_compiler_programs=n, verifier_vs_compiler_mismatches=len(hit))

    def second_solver(self):
        ts = [t for r in self.used_results() for t in r.get('smt', ())]
        rs = self.pmap(task_cvc5, ts)
        c = {x: sum(1 for r in rs if r.split(':')[0] == x) for x in ('unsat', 'unknown', 'error', 'sat')}
        self.extra_cov = dict(getattr(self, 'extra_cov', {}), second_solver='cvc5', z3_unsat_verdicts=sum(r.get('unsat_seen', 0) for r in self.used_results()),
                              cvc5_on_a_sample_of_them=c, cvc5_errors=sorted({r for r in rs if r.startswith('error')})[:3])
        if c['sat']: self.bounded.append('cvc5 disagrees with z3 on %d of %d sampled verdicts' % (c['sat'], len(ts)))

    def replay(self):
        """concrete programs for everything that is not proved"""
        import battery
        op = {k: v for k, v in self.final.items() if v[0] in ('refuted', 'open', 'bounded')}
        if not op: return
        n = 150 if self.tier != 'quick' else 40 if len(op) <= 60 else 12
        gen = dict(zip(sorted(op), self.pmap(task_cases, [(k[0], k[1], self.seed, n) for k in sorted(op)])))
        rdir = os.path.join(OUT, 'replay'); os.makedirs(rdir, exist_ok=True)
        bystd = {}
        for k in sorted(op):
            v = op[k]
            cases = []
            self.models = getattr(self, 'models', {})
            if len(v) > 2:
                for q in (v[3], v[1]):
                    for x in (q['res'] if q else ()):
                        if x[3] and x[3].get('case') is not None: x[3]['case'].key = k; cases.append(x[3]['case'])
            self.models[k] = len(cases)
            for c in gen.get(k) or (): c.key = k; cases.append(c)
            bystd.setdefault(k[0], []).extend(cases)
        hit = {}
        self.ran = {}
        for std, cases in bystd.items():
            for c, st, text in battery.run_cases(cases, std, os.path.join(self.work, 'b')):
                self.replays += 1
                self.ran[c.key] = self.ran.get(c.key, 0) + 1
                if st != 'ok' and c.key not in hit: hit[c.key] = (c, st, text)
        # no failing program yet: more rounds with other seeds
        t0 = time.time(); rnd = 0
        weak = [k for k in sorted(op) if op[k][0] != 'bounded']
        while weak and not hit and rnd < (4 if self.tier == 'quick' else 12) and time.time() - t0 < 90:
            rnd += 1
            for k, cs in zip(weak, self.pmap(task_cases, [(k[0], k[1], self.seed + 1000 * rnd, 60 if len(weak) <= 20 else 20) for k in weak])):
                for c in cs or (): c.key = k
                for c, st, text in battery.run_cases(cs or [], k[0], os.path.join(self.work, 'b')):
                    self.replays += 1
                    self.ran[c.key] = self.ran.get(c.key, 0) + 1
                    if st != 'ok' and c.key not in hit: hit[c.key] = (c, st, text)
                if time.time() - t0 > 90: break
        for k in sorted(op):
            v = op[k]
            why = ''
            if len(v) > 2:
                bad = [x for q in (v[3], v[1]) if q for x in q['res'] if x[1] != 'discharged']
                why = '\n'.join('obligation %s: %s: %s' % x[:3] for x in bad[:4])
            if k in hit:
                c, st, text = hit[k]
                path = os.path.join(rdir, '%s_cpp%s_%s.cpp' % (self.prop, k[0], __import__('re').sub('[^A-Za-z0-9_]+', '_', k[1])))
                battery.write_replay(c, st, text, path, self.prop, why)
                self.violation(k, path, '%s in C++%s: %s' % (k[1], k[0], st), True)
            elif v[0] == 'refuted' and hit:
                self.bounded.append('%s (C++%s): refuted obligation; the failing programs of other contracts are reported' % (k[1], k[0]))
            elif v[0] == 'refuted' and not self.models.get(k):
                path = os.path.join(rdir, '%s_cpp%s_%s.txt' % (self.prop, k[0], __import__('re').sub('[^A-Za-z0-9_]+', '_', k[1])))
                open(path, 'w').write('property %s, C++%s, contract of %s: failed obligation, no concrete failing input found\n%s\n' % (self.prop, k[0], k[1], why))
                self.violation(k, path, '%s in C++%s: refuted obligation' % (k[1], k[0]), False)
            else:
                self.bounded.append('%s (C++%s): %s; %d replayed programs agree' % (k[1], k[0], 'bounded shapes discharged' if v[0] == 'bounded' else 'not proved', self.ran.get(k, 0)))

    def violation(self, k, path, what, concrete):
        for kf in self.known:
            if kf.get('contract') == k[1] and kf.get('std') == k[0]:
                self.known_hit.append(kf['what']); return
        self.violations.append((k, path, what, concrete))

    def evidence(self):
        import contracts as K
        ob = sum(len(r['res']) for r in self.used_results())
        di = sum(1 for r in self.used_results() for x in r['res'] if x[1] == 'discharged')
        fns = sorted({'%s [C++%s]' % (r['name'], r['std']) for r in self.used_results()})
        ass = sorted({a for r in self.used_results() for a in r['assume']})
        locs = sorted({l.split(':')[0].split('/include/boost/metaparse/')[-1] for r in self.used_results() for l in r['locs']})
        cov = {'obligations': ob, 'discharged': di,
               'checker_cmd': 'python3-vt tmv/check.py %s --tier %s' % (self.prop, self.tier),
               'trusted_base': TRUSTED,
               'functions_under_contract': fns, 'contracts': len(fns),
               'source_files_verified': locs,
               'solver': 'z3 %s' % __import__('z3').get_version_string(),
               'solver_calls': sum(r['stats']['solver_calls'] for r in self.used_results()),
               'solver_time_s': round(sum(r['stats']['solver_time'] for r in self.used_results()), 2),
               'path_decisions': sum(r['stats']['decisions'] for r in self.used_results()),
               'template_instantiations_evaluated': sum(r['stats']['insts'] for r in self.used_results()),
               'contracts_with_a_satisfiable_discharged_path': sum(1 for r in self.used_results() if r['nonvacuous']),
               'bounded_not_proved': self.bounded, 'replayed_programs': self.replays,
               'headers_extracted': self.hdrs, 'newer_standards': getattr(self, 'same', {}), 'notes': self.notes}
        cov.update(getattr(self, 'extra_cov', {}))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': ass + ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': len(self.violations)}
        os.makedirs(OUT, exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, self.prop + '.json'), 'w'), indent=1)

    def used_results(self):
        out = dict(self.done)
        for k, v in getattr(self, 'final', {}).items():
            if v[1] is not None: out[k] = v[1]
        return list(out.values())

HEAVY = {'one_of_c': 9, 'repeated_one_of1': 8, 'repeated_one_of': 5, 'one_char_except': 4, 'one_char_except_c': 3, 'int_': 6, 'spaces': 4}
TRUSTED = ['tmv: evaluator of the C++ template language (partial specialisation, overload-free member lookup, constant expressions) - cross-checked against g++ by the thorough tier',
           'clang 18 front end (AST) and g++ preprocessor used for extraction', 'z3',
           'models of Boost.MPL sequences and metafunctions (mpl.py): Boost.MPL itself is not verified']
ASSUME = ['user-supplied parsers return accept<..> / reject<..> with a string and a position, predicates return boolean constants',
          'metaprogram termination and compiler resource limits (instantiation depth) are not part of the properties']

def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == prop]

def main():
    prop = sys.argv[1]
    if prop == '--setup':
        build_tool(); return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ.setdefault('TMV_DUMP', build_tool())
    if prop == 'C15': import literal
    if tier != 'quick': OPT.update(cross=8, seed=seed)
    r = Run(prop, tier, seed)
    try:
        r.start_limits()
        r.newer()
        r.extract()
        if limits.SET and not PROG: r.final = {}; r.replays = 0
        else: r.decide()
        r.join_limits()
        r.evidence()
        for w in sorted(set(r.known_hit)): print('KNOWN-FINDING: property=%s %s' % (prop, w))
        for b in r.bounded: print('note: bounded:', b)
        for k, path, what, concrete in r.violations:
            print('# ' + what)
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if concrete else ' no-failing-input-found'))
        ob = sum(len(x['res']) for x in r.used_results())
        print('%s: %d contracts, %d obligations, %s, %.1f s' % (prop, len(r.used_results()), ob, 'VIOLATED' if r.violations else 'ok', time.time() - T0))
        sys.exit(1 if r.violations else 0)
    finally:
        shutil.rmtree(r.work, ignore_errors=True)

if __name__ == '__main__':
    mp.set_start_method('fork')
    main()
