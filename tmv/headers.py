"""C19: every public header on its own.  For each documented header and each
language standard, the program consisting of that header alone (followed only by
the headers that declare the arguments a user passes in) is extracted, the public
names are required to be the entities of the current interface version, and the
contracts of what the header declares are discharged again in that program: a
definition that only some other header brings in is a failed obligation."""
import os, re, subprocess, time, traceback
import extract, contracts as K
from verify import Verifier
import verify as VF
from engine import Program, Unsupported

# the public interface: header -> names (namespace boost::metaparse); the documentation's reference section
PLAIN = '''accept accept_tag accept_when alphanum always always_c build_parser change_error_message debug_parsing_error digit digit_val
empty entire_input except fail fail_at_first_char_expected fail_tag first_of foldl foldl1 foldl_reject_incomplete foldl_reject_incomplete1
foldl_reject_incomplete_start_with_parser foldl_start_with_parser foldr foldr1 foldr_reject_incomplete foldr_reject_incomplete1
foldr_start_with_parser get_col get_line get_message get_position get_prev_char get_remaining get_result grammar if_ int_ is_error iterate
iterate_c keyword last_of letter lit lit_c look_ahead middle_of next_char next_line nth_of nth_of_c one_char one_char_except
one_char_except_c one_of one_of_c optional range range_c reject repeated repeated1 repeated_one_of repeated_one_of1
repeated_reject_incomplete repeated_reject_incomplete1 return_ sequence source_position source_position_tag space spaces start string
string_tag token transform transform_error transform_error_message unless_error
error::digit_expected error::end_of_input_expected error::expected_to_fail error::index_out_of_range error::letter_expected
error::literal_expected error::none_of_the_expected_cases_found error::unexpected_character error::unexpected_end_of_input error::unpaired
error::whitespace_expected
util::digit_to_int util::digit_to_int_c util::in_range util::in_range_c util::int_to_digit util::int_to_digit_c util::is_digit
util::is_lcase_letter util::is_letter util::is_ucase_letter util::is_whitespace util::is_whitespace_c'''.split()
TABLE = {n.replace('::', '/'): [n] for n in PLAIN}
TABLE['sequence_apply'] = ['sequence_apply%d' % i for i in range(1, 5)]
MACROS = {'string': ['BOOST_METAPARSE_STRING'], 'string_value': ['BOOST_METAPARSE_STRING_VALUE'], 'define_error': ['BOOST_METAPARSE_DEFINE_ERROR'],
          'limit_one_char_except_size': ['BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE'], 'limit_one_of_size': ['BOOST_METAPARSE_LIMIT_ONE_OF_SIZE'],
          'limit_sequence_size': ['BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE'], 'limit_string_size': ['BOOST_METAPARSE_LIMIT_STRING_SIZE'],
          'version': ['BOOST_METAPARSE_VERSION']}
for h in MACROS: TABLE.setdefault(h, [])

def path(h): return 'boost/metaparse/%s.hpp' % h

def stem(con):
    """the public header whose entity a contract describes"""
    n = con.name
    if n.startswith('C04:') or con.internal or con.kind in ('lemma', 'fn') or hasattr(con, 'lit'): return None
    if n.startswith('text:'): return 'error/' + re.match(r'\w+', n[5:]).group()
    if n.startswith('util:'):
        m = re.match(r'\w+', n[5:]).group()
        return 'util/' + m if 'util/' + m in TABLE else None
    if n.startswith('mpl:') or n.startswith('str:'): return 'string'
    if n.startswith('position:'): return 'source_position'
    if n.startswith('proto:'): return re.match(r'\w+', n[6:]).group()
    m = re.match(r'[\w:]+', n).group()
    if re.match(r'sequence_apply\d', m): return 'sequence_apply'
    m = m.split('::')[0]
    return m if m in TABLE else None

def owned():
    out = {h: [] for h in TABLE}
    for c in K.CON.values():
        s = stem(c)
        if s in out: out[s].append(c.name)
    return out

def prelude(h, names, users=True):
    """what a user of the header includes besides it: the things passed in or asked about"""
    out = []
    for n in names:
        c = K.CON[n]
        if c.kind == 'expr':
            for x in c.headers():
                if x.startswith('boost/mpl/'): out.append(x)
            for t in re.findall(r'mp::((?:util::|error::)?\w+)', c.text or ''):
                x = path(t.replace('::', '/'))
                if t.replace('::', '/') in TABLE: out.append(x)
        roles = [p.split(':')[0].strip('~!') for p in c.params]
        if (users and any(r in ('P', 'PS') for r in roles)) or 'R' in roles or n.startswith('get_') or n.startswith('is_error') or n.startswith('unless'):
            out += [path('accept'), path('reject')]
        if any(r in ('P', 'PS') for r in roles): out += [path('accept_tag'), path('fail_tag')]
        if c.kind != 'expr' or any(r in ('S', 'Posv', 'R', 'P') for r in roles): out += [path('string'), path('source_position')]
    return [x for x in dict.fromkeys(out) if x != path(h)]

def refs(names):
    """the MPL metafunctions a user of the header calls"""
    out = {}
    def walk(a, roles):
        if not isinstance(a, (list, tuple)): return
        if a and a[0] == 'inst' and a[1].startswith('boost::mpl::'):
            out[a[1]] = ', '.join('0' if x[0] == 'int' or (x[0] == 'param' and roles.get(x[1]) == 'N') else 'a' for x in a[2])
        for x in a: walk(x, roles)
    for n in names:
        c = K.CON[n]
        if c.ast is not None: walk(c.ast, {p.split(':')[1]: p.split(':')[0] for p in c.params})
    return 'namespace vn_refs { struct a;%s }' % ''.join(' typedef %s<%s> r%d;' % (q, t, i) for i, (q, t) in enumerate(sorted(out.items()))) if out else ''

def probe(h):
    t = ''
    for i, n in enumerate(TABLE[h]):
        ns, b = ('::' + n).rsplit('::', 1)
        t += 'namespace vn_probe_%d { using boost::metaparse%s::%s; using boost::metaparse::v1%s::%s; }\n' % (i, ns, b, ns, b)
    return t

def names_program(h, std):
    t = '#include <%s>\n' % path(h) + probe(h)
    for m in MACROS.get(h, ()):
        if m == 'BOOST_METAPARSE_STRING': t += '#if __cplusplus >= 201103L && !defined %s\n#error %s is not defined\n#endif\n' % (m, m)
        else: t += '#ifndef %s\n#error %s is not defined\n#endif\n' % (m, m)
    return t + 'int main() {}\n'

def compile_(text, std, work, tag):
    src = os.path.join(work, 'n_%s.cpp' % tag)
    open(src, 'w').write(text)
    r = subprocess.run(['g++', '-std=c++' + std, '-w', '-fsyntax-only', '-I', os.path.join(extract.REPO, 'include'), src], capture_output=True, text=True, errors='replace')
    os.unlink(src)
    return r

LIGHT = {'one_of': (0, 1, 3, 20), 'one_of_c': (0, 1, 3, 20), 'one_char_except': (0, 1, 10), 'one_char_except_c': (0, 1, 10), 'repeated_one_of': (0, 1, 3, 20),
         'repeated_one_of1': (0, 1, 3, 20)}

def complete(prog, name):
    i = prog.byname.get(VF.K.NS + name)
    return i is not None and any(x.get('complete') and x.get('kind') == 'record' and x.get('template') == i for x in prog.decls.values())

def check_header(a):
    """one public header in one standard -> plain data"""
    std, h, names, work, limit = a
    t0 = time.time()
    tag = std + '_' + h.replace('/', '_')
    res = {'std': std, 'name': h, 'res': [], 'used': [], 'locs': [], 'assume': [], 'nonvacuous': 0, 'contracts': [],
           'stats': {'solver_calls': 0, 'solver_time': 0.0, 'decisions': 0, 'insts': 0}}
    r = compile_(names_program(h, std), std, work, tag)
    if r.returncode != 0:
        res['res'].append(('names', 'refuted', r.stderr[:3000], None)); return res
    res['res'].append(('%s: %s same entity as in v1, header self-contained' % (h, ', '.join(TABLE[h] + MACROS.get(h, []))), 'discharged', '', None))
    prog = user_of(h, names, std)
    if prog is not None:
        r = compile_(prog, std, work, tag)
        res['programs'] = 1
        if r.returncode != 0:
            # only a matter of this header if it works when every header is included
            if compile_(with_all(prog), std, work, tag).returncode == 0: res['user'] = (prog, r.stderr[:3000])
            else: res['broken'] = r.stderr[:300]
    if not names: res['time'] = time.time() - t0; return res
    w = os.path.join(work, 'h_' + tag); os.makedirs(w, exist_ok=True)
    try:
        try: out, body, text = extract.run(std, [path(h)] + prelude(h, names, False), w, bare=True, append=refs(names))
        except extract.ExtractError as x:
            res['res'].append(('extraction', 'unsupported', str(x)[:1500], None)); return res
        prog = Program(out, std)
        os.unlink(out)
        for n in list(VF.CAP98): VF.CAP98[n] = LIGHT.get(n, VF.CAP98[n])
        todo = list(names); seen = set()
        while todo:
            n = todo.pop(0)
            if n in seen: continue
            seen.add(n)
            con = K.CON[n]
            if not con.applies_std(std): continue
            m = re.match(r'proto:(accept|reject)::', n)
            if m and n not in names and not complete(prog, m.group(1)): continue      # arrives with the parser the user passes in
            V = Verifier(prog, z3_timeout=6000)
            V.light = True
            V.e.deadline = time.time() + limit
            try:
                for q in V.verify(con):
                    res['res'].append((q.name, q.status, q.detail[:800] if q.status != 'discharged' else '', None))
                    if q.status != 'discharged': res.setdefault('bad', []).append(n); break
            except Exception as x:
                res['res'].append((n, 'unsupported', ''.join(traceback.format_exception_only(type(x), x))[:300] + traceback.format_exc()[-600:], None)); res.setdefault('bad', []).append(n)
            res['contracts'].append(n)
            for k in res['stats']: res['stats'][k] += V.e.stats.get(k, 0)
            res['nonvacuous'] += V.nonvacuous
            res['assume'] = sorted(set(res['assume']) | V.e.assumptions_used)
            res['locs'] = sorted(set(res['locs']) | {x for x in V.e.loc_used if x})
            todo += [u for u in sorted(V.e.used_contracts) if u in K.CON and u not in seen]
    finally:
        __import__('shutil').rmtree(w, ignore_errors=True)
    if res.get('bad') and not res.get('user') and any(r.split(':')[0] in ('P', 'PS') for n in names for r in K.CON[n].params):
        # the failing obligation as a program: the parsers passed in bring only one of accept / reject with them
        for parser in ('fail', 'return_'):
            prog = user_program(h, names, std, parser)
            r = compile_(prog, std, work, tag) if prog else None
            if r is not None and r.returncode != 0 and compile_(with_all(prog), std, work, tag).returncode == 0:
                res['user'] = (prog, r.stderr[:3000]); break
    res['time'] = time.time() - t0
    return res

# ---------------------------------------------------------------- a small user of the header, compiled by g++
USER = '''
namespace user {
  struct r { typedef r type; static std::string get_value() { return "user text"; } };
  typedef boost::metaparse::string<'a', '1', 'b'> text;
  typedef boost::metaparse::source_position<boost::mpl::int_<2>, boost::mpl::int_<3>, boost::mpl::char_<'x'> > pos;
  struct yes { typedef yes type; typedef bool value_type; static const bool value = true; };
  struct f { typedef f type; template <class A, class B = int> struct apply { typedef r type; }; };
  struct pred { typedef pred type; template <class A> struct apply : boost::mpl::bool_<true> {}; };
  template <class A> struct t1 { typedef r type; };
  template <class A, class B> struct t2 { typedef r type; };
  template <class A, class B, class C> struct t3 { typedef r type; };
  template <class A, class B, class C, class D> struct t4 { typedef r type; };
'''
UPARSER = '''  template <class S, class P> struct p_impl : boost::metaparse::reject<r, P> {};
  template <class P> struct p_impl<text, P> : boost::metaparse::accept<r, boost::metaparse::string<'1', 'b'>, P> {};
  struct p { typedef p type; template <class S, class P> struct apply : p_impl<typename S::type, P> {}; };
'''
UTAIL = '''  template <class A> struct use { typedef typename A::type type; enum { size = sizeof(type) }; };
}
'''
def user_args(con):
    env = {}; flat = []
    for p in con.params:
        role, name = p.split(':'); role = role.lstrip('!')
        m = re.match(r'sequence_apply(\d)', con.name)
        t = {'P': ['user::p'], 'PS': ['user::p', 'user::p'], 'F': ['user::f'], 'Op': ['user::f'], 'E': ['user::f'], 'Pred': ['user::pred'],
             'V': ['user::r'], 'X': ['user::r'], 'St': ['user::r'], 'Sv': ['user::r'], 'M': ['user::r'], 'Y': ['user::r'],
             'C': ["'a'"], 'CS': ["'a'", "'b'"], 'Ct': ["boost::mpl::char_<'a'>"], 'CtS': ["boost::mpl::char_<'a'>", "boost::mpl::char_<'b'>"],
             'N': ['1'], 'Nt': ['boost::mpl::int_<1>'], 'B': ['true'], 'BS': ['true'], 'S': ['user::text'], 'Posv': ['user::pos'],
             'R': ['boost::metaparse::accept<user::r, user::text, user::pos>'], 'TT': ['user::t' + (m.group(1) if m else '1')]}.get(role)
        if t is None: return None
        env[name] = ', '.join(t); flat += t
    return env, flat

def user_program(h, names, std, parser=None):
    hs = [path(h)] + [x for x in prelude(h, names, parser is None) if parser is None or not x.endswith('_tag.hpp')]
    if parser: hs.append(path(parser))
    if parser == 'return_': names = [n for n in names if not re.search('fold|repeated|iterate', n)]
    body = ''; n = 0; rt = ''
    for name in names:
        c = K.CON[name]
        if not c.applies_std(std) or c.noforce or 'not_a_string' in name: continue
        if any(p[0] == '~' for p in c.params): continue
        a = user_args(c)
        if a is None: continue
        env, flat = a
        m = re.match(r'util:(is_|digit_to|in_range)', name)
        if m: env = {k: v.replace("'a'", "'1'") for k, v in env.items()}
        if 'int_to_digit' in name or 'roundtrip' in name: pass
        if c.kind == 'expr': s = K.cpp_expr(c.ast, env)
        elif c.kind == 'tmpl': s = '%s<%s >' % (c.qname, ', '.join(flat)) if flat else c.qname + '<>'
        else: s = c.qname
        s = s.replace('boost::metaparse::v1::', 'boost::metaparse::')
        if c.stdout: rt += '  %s x%d; (void)x%d;\n' % (s if c.stdout is True else s + '::' + c.stdout, len(rt), len(rt)); continue
        if c.runtext or c.arr: rt += '  (void)%s::%s%s;\n' % (s, c.runtext or c.arr, '()' if c.runtext else ''); continue
        if c.style == 'apply':
            ap = []
            for x in c.apply_params: ap.append({'S': 'user::text', 'Pos': 'user::pos'}.get(x, 'user::r'))
            for inp in ('user::text', 'boost::metaparse::string<>'):
                body += 'typedef user::use<%s::apply<%s > >::type u%d;%s\n' % (s, ', '.join([inp] + ap[1:]) if ap[:1] == ['user::text'] else ', '.join(ap), n, '' if 'E:' in ' '.join(c.params) else ' enum { s%d = sizeof(u%d::tag) };' % (n, n)); n += 1
                if ap[:1] != ['user::text']: break
        else:
            body += 'enum { s%d = sizeof(user::use<%s >::type) };\n' % (n, s); n += 1
    if not n and not rt: return None
    t = ''.join('#include <%s>\n' % x for x in hs)
    need = any(x in hs for x in (path('accept'), path('reject')))
    us, rest = USER, ''
    if path('source_position') not in hs: us = re.sub(r'  typedef boost::metaparse::source_position.*\n', '', us)
    if path('string') not in hs: us = re.sub(r'  typedef boost::metaparse::string.*\n', '', us)
    t += '#include <boost/mpl/bool.hpp>\n#include <boost/mpl/int.hpp>\n#include <boost/mpl/char.hpp>\n#include <string>\n'
    t += us + ('  typedef boost::metaparse::%s<r> p;\n' % parser if parser else UPARSER if path('accept') in hs and path('reject') in hs and path('string') in hs else '') + UTAIL
    return t + body + 'int main() {\n%s}\n' % rt

_PARSER98 = "boost::metaparse::string<'a', '1', 'b'>"
FIXED = {
 'accept_tag': 'typedef boost::metaparse::accept_tag::type t; enum { s = sizeof(t) };\n',
 'fail_tag': 'typedef boost::metaparse::fail_tag::type t; enum { s = sizeof(t) };\n',
 'source_position_tag': 'typedef boost::metaparse::source_position_tag::type t; enum { s = sizeof(t) };\n',
 'string_tag': 'typedef boost::metaparse::string_tag::type t; enum { s = sizeof(t) };\n',
 'define_error': '#include <string>\nBOOST_METAPARSE_DEFINE_ERROR(my_error, "my text");\nstd::string s() { return my_error::type::get_value(); }\n',
 'debug_parsing_error': '''#include <boost/metaparse/one_char.hpp>
#include <boost/metaparse/fail.hpp>
#include <boost/metaparse/string.hpp>
#include <string>
struct e { typedef e type; static std::string get_value() { return "x"; } };
void f() { boost::metaparse::debug_parsing_error<boost::metaparse::one_char, boost::metaparse::string<'a'> > d; }
void g() { boost::metaparse::debug_parsing_error<boost::metaparse::fail<e>, boost::metaparse::string<'a'> > d; }
''',
 'grammar': '''#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
typedef boost::metaparse::grammar<boost::metaparse::string<'s'> >
  ::rule<boost::metaparse::string<'s',' ',':',':','=',' ','\\'','a','\\'','*',' ','b',' ','|',' ','(','b','+',')'> >::type
  ::rule<boost::metaparse::string<'b',' ',':',':','=',' ','\\'','b','\\''> >::type g;
typedef g::apply<boost::metaparse::string<'a','b'>, boost::metaparse::start>::type r;
enum { s = sizeof(r::tag) };
''',
 'string_value': '#if __cplusplus >= 201103L\ntemplate <class A, class B> struct same;\ntemplate <class A> struct same<A, A> {};\nstruct t : decltype(BOOST_METAPARSE_STRING_VALUE("abc")) {};\nsame<decltype(BOOST_METAPARSE_STRING_VALUE("a\\n\\\\b")), boost::metaparse::v1::string<97, 10, 92, 98> > x;\nsame<decltype(BOOST_METAPARSE_STRING_VALUE("")), boost::metaparse::v1::string<> > y;\n#endif\n',
 'limit_one_char_except_size': 'enum { s = sizeof(char[BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE]) };\n',
 'limit_one_of_size': 'enum { s = sizeof(char[BOOST_METAPARSE_LIMIT_ONE_OF_SIZE]) };\n',
 'limit_sequence_size': 'enum { s = sizeof(char[BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE]) };\n',
 'limit_string_size': 'enum { s = sizeof(char[BOOST_METAPARSE_LIMIT_STRING_SIZE]) };\n',
 'version': 'enum { s = BOOST_METAPARSE_VERSION };\n'}
EXTRA_USE = {'string': '#if __cplusplus >= 201103L\nstruct lit : BOOST_METAPARSE_STRING("abc") {};\n#endif\n'}
def user_of(h, names, std):
    if h in FIXED: return '#include <%s>\n' % path(h) + FIXED[h] + 'int main() {}\n'
    p = user_program(h, names, std)
    if p and h in EXTRA_USE: p = p.replace('int main()', EXTRA_USE[h] + 'int main()')
    return p
def with_all(prog):
    top, v1 = extract.all_headers()
    return ''.join('#include <%s>\n' % t for t in top) + prog
