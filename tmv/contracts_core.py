"""Contracts on the data structures (strings, results, positions) and on the
utility metafunctions.  Subjects are C++ type expressions over the parameters."""
import z3
from terms import *
from spec import *
from contracts import *
import contracts as K
from limits import STR

def X(name, text, params, spec, prop, hdr, **kw):
    if kw.get('maxlen') == STR: kw.setdefault('explicit98', lambda l: range(0, l))
    hdr = [h if '/' in h else 'boost/metaparse/%s.hpp' % h for h in hdr]
    kw.setdefault('intercept', False)
    return Contract(name, params, spec, kind='expr', style='meta', text=text, prop=prop, header=hdr, **kw)

# ============================================================ strings
STRH = ['string', 'boost/mpl/at.hpp', 'boost/mpl/front.hpp', 'boost/mpl/back.hpp', 'boost/mpl/size.hpp', 'boost/mpl/empty.hpp', 'boost/mpl/push_back.hpp',
        'boost/mpl/push_front.hpp', 'boost/mpl/pop_back.hpp', 'boost/mpl/pop_front.hpp', 'boost/mpl/clear.hpp', 'boost/mpl/begin_end.hpp', 'boost/mpl/deref.hpp',
        'boost/mpl/next_prior.hpp', 'boost/mpl/advance.hpp', 'boost/mpl/distance.hpp', 'boost/mpl/equal_to.hpp', 'boost/mpl/not_equal_to.hpp']
LIMIT98 = STR
def explicit(c, il):
    """the characters as a Python list: in C++98 (bounded length) by case analysis on the length"""
    il = z3.simplify(il) if c.concrete else il
    out = []
    while True:
        if is_cons_app(il, 'inil'): return out
        if is_cons_app(il, 'icons'): out.append(il.arg(0)); il = il.arg(1); continue
        if len(out) > LIMIT98: raise PathAbort()      # no such string
        if c.cond(is_inil(il)): return out
        out.append(c.char(ihd(il))); il = itl(il)
def ex(c): return c.concrete or (c.std == '98' and c.ver)
def chars(S): return s_chars(S)
def slen(c, S):
    if ex(c): return len(explicit(c, chars(S)))
    il = chars(S); n = 0
    while is_cons_app(il, 'icons'): n += 1; il = il.arg(1)
    if is_cons_app(il, 'inil'): return n
    return n + c.e.seg_len(Seg(il, 'int', 'char'))
def u_nth(c, il, n):
    """n-th character, requires 0 <= n < length (unfolded once)"""
    return c.ite(I(n) == 0, lambda: c.char(ihd(il)), lambda: nth_t(c, itl(il), z3.simplify(I(n) - 1)))
def nth_t(c, il, n):
    n = z3.simplify(I(n))
    while z3.is_int_value(n) and is_cons_app(il, 'icons'):
        if n.as_long() == 0: return il.arg(0)
        il = il.arg(1); n = z3.IntVal(n.as_long() - 1)
    if z3.is_int_value(n) and n.as_long() == 0: return c.char(ihd(il))
    return c.char(inth(il, n))
def nth_c(c, S, n):
    if ex(c):
        xs = explicit(c, chars(S))
        for i, x in enumerate(xs):
            if c.cond(I(n) == i): return x
        raise IllFormed('index out of range')
    return nth_t(c, chars(S), n)
def nonempty(c, S): return not_(is_inil(chars(S)))
def inrange(c, S, n): return z3.And(I(n) >= 0, I(n) < I(slen(c, S)))
def room(c, S, *a):
    """C++98: the result has to fit into the length limit"""
    if c.std != '98': return True
    ok = and_(*[x != -1 for x in a])          # -1 is the end mark of a C++98 string
    if ex(c): return and_(z3.BoolVal(len(explicit(c, chars(S))) < LIMIT98), ok)
    return ok
IBUT = z3.Function('ibutlast', IL, IL)
def u_butlast(c, il):
    return c.ite(is_inil(itl(il)), lambda: IL.inil, lambda: IL.icons(ihd(il), butlast_t(c, itl(il))))
def butlast_t(c, il):
    if is_cons_app(il, 'icons') and (is_cons_app(il.arg(1), 'icons') or is_cons_app(il.arg(1), 'inil')):
        return IL.inil if is_cons_app(il.arg(1), 'inil') else IL.icons(il.arg(0), butlast_t(c, il.arg(1)))
    if is_cons_app(il, 'isnoc'): return il.arg(0)
    return IBUT(il)
def ST(xs): return T.Str(ilist(xs))
def b(x): return ic('bool', x)
def cmpc(f):
    return lambda c, *a: f(c, *a)
SOP = {
 'empty': (['S:S'], lambda c, S: b(is_inil(chars(S)))),
 'size': (['S:S'], lambda c, S: ic('int', slen(c, S))),
 'front': (['S:S'], lambda c, S: ic('char', c.char(ihd(chars(S))))),
 'back': (['S:S'], lambda c, S: ic('char', nth_c(c, S, I(slen(c, S)) - 1))),
 'pop_front': (['S:S'], lambda c, S: T.Str(itl(chars(S)))),
 'pop_back': (['S:S'], lambda c, S: ST(explicit(c, chars(S))[:-1]) if ex(c) else T.Str(butlast_t(c, chars(S)))),
 'push_front': (['S:S', 'Ct:c'], lambda c, S, x: T.Str(IL.icons(x, chars(S)))),
 'push_back': (['S:S', 'Ct:c'], lambda c, S, x: ST(explicit(c, chars(S)) + [x]) if ex(c) else T.Str(isnoc(chars(S), x))),
 'clear': (['S:S'], lambda c, S: T.Str(IL.inil)),
 'at_c': (['S:S', 'N:n'], lambda c, S, n: ic('char', nth_c(c, S, n))),
 'at': (['S:S', 'Nt:n'], lambda c, S, n: ic('char', nth_c(c, S, n))),
}
SREQ = {'front': nonempty, 'back': nonempty, 'pop_front': nonempty, 'pop_back': nonempty, 'at_c': inrange, 'at': inrange, 'push_front': room, 'push_back': room}
for op, (ps, sp) in SOP.items():
    args = ', '.join('$' + p.split(':')[1] for p in ps)
    X('mpl:' + op, 'mpl::%s<%s>' % (op, args), ps, sp, 'C14', STRH, req=SREQ.get(op), maxlen=STR,
      lens98={'push_front': range(0, STR), 'push_back': range(0, STR), 'front': range(1, STR + 1), 'back': range(1, STR + 1), 'pop_front': range(1, STR + 1), 'pop_back': range(1, STR + 1)}.get(op, range(0, STR + 1)))
# iteration
X('str:iter', 'mpl::deref<mpl::advance<mpl::begin<$S>::type, $n>::type>', ['S:S', 'Nt:n'], lambda c, S, n: ic('char', nth_c(c, S, n)), 'C14', STRH, req=inrange, maxlen=STR)
X('str:next', 'mpl::deref<mpl::next<mpl::advance<mpl::begin<$S>::type, $n>::type>::type>', ['S:S', 'Nt:n'], lambda c, S, n: ic('char', nth_c(c, S, z3.simplify(I(n) + 1))), 'C14', STRH,
  req=lambda c, S, n: z3.And(I(n) >= 0, I(n) + 1 < I(slen(c, S))), maxlen=STR, explicit98=lambda l: range(0, l - 1))
X('str:prior', 'mpl::deref<mpl::prior<mpl::advance<mpl::begin<$S>::type, $n>::type>::type>', ['S:S', 'Nt:n'], lambda c, S, n: ic('char', nth_c(c, S, z3.simplify(I(n) - 1))), 'C14', STRH,
  req=lambda c, S, n: z3.And(I(n) >= 1, I(n) <= I(slen(c, S))), maxlen=STR, explicit98=lambda l: range(1, l + 1))
X('str:distance', 'mpl::distance<mpl::advance<mpl::begin<$S>::type, $n>::type, mpl::end<$S>::type>', ['S:S', 'Nt:n'], lambda c, S, n: ic('int', z3.simplify(I(slen(c, S)) - I(n))), 'C14', STRH,
  req=lambda c, S, n: z3.And(I(n) >= 0, I(n) <= I(slen(c, S))), maxlen=STR, explicit98=lambda l: range(0, l + 1))
X('str:distance, back', 'mpl::distance<mpl::end<$S>::type, mpl::advance<mpl::begin<$S>::type, $n>::type>', ['S:S', 'Nt:n'], lambda c, S, n: ic('int', z3.simplify(I(n) - I(slen(c, S)))), 'C14', STRH,
  req=lambda c, S, n: z3.And(I(n) >= 0, I(n) <= I(slen(c, S))), maxlen=STR, explicit98=lambda l: range(0, l + 1))
X('str:advance, back', 'mpl::deref<mpl::advance<mpl::end<$S>::type, $n>::type>', ['S:S', 'Nt:n'], lambda c, S, n: ic('char', nth_c(c, S, z3.simplify(I(slen(c, S)) + I(n)))), 'C14', STRH,
  req=lambda c, S, n: z3.And(I(n) < 0, I(n) + I(slen(c, S)) >= 0), maxlen=STR, explicit98=lambda l: range(-l, 0))
X('str:end', 'mpl::equal_to<mpl::advance<mpl::begin<$S>::type, $n>::type, mpl::end<$S>::type>', ['S:S', 'Nt:n'], lambda c, S, n: b(I(slen(c, S)) == I(n)), 'C14', STRH,
  req=lambda c, S, n: z3.And(I(n) >= 0, I(n) <= I(slen(c, S))), maxlen=STR, explicit98=lambda l: range(0, l + 1))
X('str:equal_to', 'mpl::equal_to<$A, $B>', ['S:A', 'S:B'], lambda c, A, B: b(chars(A) == chars(B)), 'C14', STRH, maxlen=3, also=())
X('str:not_a_string', 'mpl::equal_to<$A, $n>', ['S:A', 'Nt:n'], lambda c, A, n: b(False), 'C14', STRH, maxlen=4)
X('str:not_a_string2', 'mpl::equal_to<$n, $A>', ['S:A', 'Nt:n'], lambda c, A, n: b(False), 'C14', STRH, maxlen=4)
def sp_c_str(c, S):
    il = z3.simplify(chars(S)) if c.concrete else chars(S)
    return c.ite(is_inil(il), lambda: T.Str(ilist([z3.IntVal(0)])), lambda: T.Str(isnoc(il, 0)))
X('str:c_str', 'mpl::c_str<$S>', ['!S:S'], sp_c_str, 'C14', ['string'], maxlen=STR, arr='value')
X('proto:string::tag', '$S::tag', ['!S:S'], lambda c, S: cls('R:' + NS + 'string_tag'), 'C14', ['string'], maxlen=4)
# recursive helpers of the variadic implementation
Contract('impl::at_c', ['S:S', 'N:n'], lambda c, S, n: ic('char', u_nth(c, chars(S), n)), use=lambda c, S, n: ic('char', nth_t(c, chars(S), n)), req=inrange,
         style='meta', stds=('11', '14'), prop='C14', internal=True, header='boost/metaparse/string.hpp')
Contract('impl::pop_back', ['S:S'], lambda c, S: T.Str(u_butlast(c, chars(S))), use=lambda c, S: T.Str(butlast_t(c, chars(S))), req=nonempty,
         style='meta', stds=('11', '14'), prop='C14', internal=True, header='boost/metaparse/string.hpp')

# ============================================================ C01: parsing results
RH = ['accept', 'reject', 'get_result', 'get_remaining', 'get_position', 'get_message', 'is_error', 'unless_error', 'accept_tag', 'fail_tag', 'source_position', 'string']
def C1(name, text, params, spec, **kw): X(name, text, params, spec, 'C01', RH, **kw)
ACC = 'mp::accept<$x, $S, $P>'
REJ = 'mp::reject<$x, $P>'
for lz in ('', '~'):
    s = ['V:x', lz + 'S:S', lz + 'Posv:P']
    r = ['V:x', lz + 'Posv:P']
    sfx = '{lazy}' if lz else ''
    C1('proto:accept::type' + sfx, ACC, s, lambda c, x, S, P: T.Acc(x, S, P), noforce=True)
    C1('proto:accept::type::type' + sfx, ACC + '::type', s, lambda c, x, S, P: T.Acc(x, S, P), noforce=True)
    C1('proto:reject::type' + sfx, REJ, r, lambda c, x, P: T.Rej(x, P), noforce=True)
    C1('proto:reject::type::type' + sfx, REJ + '::type', r, lambda c, x, P: T.Rej(x, P), noforce=True)
    for wrap in ('%s', '%s::type'):
        a, q = wrap % ACC, wrap % REJ
        t = sfx + ('' if wrap == '%s' else '{type}')
        C1('get_result' + t, 'mp::get_result<%s>' % a, s, lambda c, x, S, P: x, noforce=True)
        C1('get_remaining' + t, 'mp::get_remaining<%s>' % a, s, lambda c, x, S, P: S, noforce=True)
        C1('get_position' + t, 'mp::get_position<%s>' % a, s, lambda c, x, S, P: P, noforce=True)
        C1('get_position{reject}' + t, 'mp::get_position<%s>' % q, r, lambda c, x, P: P, noforce=True)
        C1('get_message' + t, 'mp::get_message<%s>' % q, r, lambda c, x, P: x, noforce=True)
        C1('is_error{accept}' + t, 'mp::is_error<%s>' % a, s, lambda c, x, S, P: b(False))
        C1('is_error{reject}' + t, 'mp::is_error<%s>' % q, r, lambda c, x, P: b(True))
    # members of the evaluated form are evaluated
    C1('proto:accept::tag' + sfx, ACC + '::tag', s, lambda c, x, S, P: cls('R:' + NS + 'accept_tag'))
    C1('proto:accept::result' + sfx, 'vn::id<%s::type::result>' % ACC, s, lambda c, x, S, P: x, noforce=True)
    C1('proto:accept::remaining' + sfx, 'vn::id<%s::type::remaining>' % ACC, s, lambda c, x, S, P: S, noforce=True)
    C1('proto:accept::source_position' + sfx, 'vn::id<%s::type::source_position>' % ACC, s, lambda c, x, S, P: P, noforce=True)
    C1('proto:reject::tag' + sfx, REJ + '::tag', r, lambda c, x, P: cls('R:' + NS + 'fail_tag'))
    C1('proto:reject::message' + sfx, 'vn::id<%s::type::message>' % REJ, r, lambda c, x, P: x, noforce=True)
    C1('proto:reject::source_position' + sfx, 'vn::id<%s::type::source_position>' % REJ, r, lambda c, x, P: P, noforce=True)
    C1('is_error' + sfx, 'mp::is_error<$y>', [lz + 'Y:y'], lambda c, y: b(is_('Rej', y)))
    C1('is_error{curried}' + sfx, 'mp::is_error<>::apply<$y>', [lz + 'Y:y'], lambda c, y: b(is_('Rej', y)))
    C1('unless_error' + sfx, 'mp::unless_error<$r, $n>', [lz + 'R:r', lz + 'X:n'], lambda c, r, n: c.sel(is_('Rej', r), r, n), noforce=True)
    C1('get_result{any}' + sfx, 'mp::get_result<$r>', [lz + 'R:r'], lambda c, r: a_res(r), req=lambda c, r: is_('Acc', r), noforce=True)
    C1('get_remaining{any}' + sfx, 'mp::get_remaining<$r>', [lz + 'R:r'], lambda c, r: a_rem(r), req=lambda c, r: is_('Acc', r), noforce=True)
    C1('get_position{any}' + sfx, 'mp::get_position<$r>', [lz + 'R:r'], lambda c, r: c.sel(is_('Acc', r), a_pos(r), r_pos(r)), noforce=True)
    C1('get_message{any}' + sfx, 'mp::get_message<$r>', [lz + 'R:r'], lambda c, r: r_msg(r), req=lambda c, r: is_('Rej', r), noforce=True)
X('proto:string::type', 'vn::id<$S::type>', ['!S:S'], lambda c, S: S, 'C14', ['string'], maxlen=4, noforce=True)
SPH = ['source_position', 'next_char', 'next_line', 'start', 'get_line', 'get_col', 'get_prev_char', 'one_char']
for m, f in (('line', lambda c, P: ic('int', p_line(P))), ('col', lambda c, P: ic('int', p_col(P))), ('prev_char', lambda c, P: ic('char', p_prev(P))),
             ('tag', lambda c, P: cls('R:' + NS + 'source_position_tag')), ('type', lambda c, P: P)):
    X('proto:source_position::' + m, '$P::' + m, ['!Posv:P'], f, 'C02', SPH)
# the continuation is not touched when there is an error, the error is not touched otherwise
C1('unless_error{unused}', 'mp::unless_error<mp::reject<$x, $P>, mp::get_result<mp::reject<$x, $P> > >', ['V:x', 'Posv:P'], lambda c, x, P: T.Rej(x, P))

# ============================================================ C02: source positions
for lz in ('', '~'):
    sfx = '{lazy}' if lz else ''
    pc = [lz + 'Posv:P', lz + 'Ct:k']
    X('next_char' + sfx, 'mp::next_char<$P, $k>', pc, lambda c, P, k: T.Pos(p_line(P), p_col(P) + 1, k), 'C02', SPH, req=lambda c, P, k: p_col(P) < 2**31 - 1)
    X('next_line' + sfx, 'mp::next_line<$P, $k>', pc, lambda c, P, k: T.Pos(p_line(P) + 1, z3.IntVal(1), k), 'C02', SPH, req=lambda c, P, k: p_line(P) < 2**31 - 1)
    X('get_line' + sfx, 'mp::get_line<$P>', [lz + 'Posv:P'], lambda c, P: ic('int', p_line(P)), 'C02', SPH)
    X('get_col' + sfx, 'mp::get_col<$P>', [lz + 'Posv:P'], lambda c, P: ic('int', p_col(P)), 'C02', SPH)
    X('get_prev_char' + sfx, 'mp::get_prev_char<$P>', [lz + 'Posv:P'], lambda c, P: ic('char', p_prev(P)), 'C02', SPH)
    # consuming one character, over evaluated and lazily evaluated input
    X('one_char{steps}' + sfx, 'mp::get_position<(mp::one_char)::apply<$S, $P> >', ['S:S', lz + 'Posv:P'],
      lambda c, S, P: next_pos(c, P, c.char(ihd(chars(S)))), 'C02', SPH + ['get_position'], req=lambda c, S, P: nonempty(c, S))
X('start', 'mp::start', [], lambda c: T.Pos(z3.IntVal(1), z3.IntVal(1), z3.IntVal(0)), 'C02', SPH)
X('start{line}', 'mp::get_line<mp::start>', [], lambda c: ic('int', 1), 'C02', SPH)
X('start{col}', 'mp::get_col<mp::start>', [], lambda c: ic('int', 1), 'C02', SPH)
X('start{prev}', 'mp::get_prev_char<mp::start>', [], lambda c: ic('char', 0), 'C02', SPH)
CON['one_char'].also = ('C02',)

class _CS:
    @staticmethod
    def sel(c, x, y): return ite(c, x, y)
# ============================================================ C03: order of positions
CMPH = ['source_position', 'boost/mpl/less.hpp', 'boost/mpl/less_equal.hpp', 'boost/mpl/greater.hpp', 'boost/mpl/greater_equal.hpp', 'boost/mpl/equal_to.hpp', 'boost/mpl/not_equal_to.hpp']
CMP = {'equal_to': lambda a, q: poseq(a, q), 'not_equal_to': lambda a, q: not_(poseq(a, q)), 'less': lambda a, q: less(a, q), 'greater': lambda a, q: less(q, a),
       'less_equal': lambda a, q: not_(less(q, a)), 'greater_equal': lambda a, q: not_(less(a, q))}
for op, f in CMP.items():
    for md in ('', '!'):
        X('position:%s%s' % (op, '{class}' if md else ''), 'mpl::%s<$A, $B>' % op, [md + 'Posv:A', md + 'Posv:B'], lambda c, A, B, f=f: b(f(A, B)), 'C03', CMPH)
# lemmas over these contracts: the six operations belong to one total order
def L(name, n, f):
    Contract('lemma:' + name, ['Posv:' + x for x in 'ABC'[:n]], lambda c, *a: b(f(*a)), kind='lemma', style='meta', prop='C03', intercept=False, header=CMPH)
L('exactly one of less, equal, greater', 2, lambda a, q: z3.PbEq([(CMP['less'](a, q), 1), (CMP['equal_to'](a, q), 1), (CMP['greater'](a, q), 1)], 1))
L('less is transitive', 3, lambda a, q, r: z3.Implies(z3.And(CMP['less'](a, q), CMP['less'](q, r)), CMP['less'](a, r)))
L('less_equal is transitive', 3, lambda a, q, r: z3.Implies(z3.And(CMP['less_equal'](a, q), CMP['less_equal'](q, r)), CMP['less_equal'](a, r)))
L('less_equal is less or equal', 2, lambda a, q: CMP['less_equal'](a, q) == z3.Or(CMP['less'](a, q), CMP['equal_to'](a, q)))
L('greater_equal is greater or equal', 2, lambda a, q: CMP['greater_equal'](a, q) == z3.Or(CMP['greater'](a, q), CMP['equal_to'](a, q)))
L('not_equal_to negates equal_to', 2, lambda a, q: CMP['not_equal_to'](a, q) == z3.Not(CMP['equal_to'](a, q)))
L('equality is identity', 2, lambda a, q: CMP['equal_to'](a, q) == (a == q))
L('consuming a character moves forward', 1, lambda a: z3.And(*[z3.Implies(z3.And(p_line(a) >= 1, p_col(a) >= 1), less(a, next_pos(_CS, a, k))) for k in (z3.Int('k'), z3.IntVal(10), z3.IntVal(13))]))

# ============================================================ C12: character utilities
UH = ['util/digit_to_int', 'util/digit_to_int_c', 'util/in_range', 'util/in_range_c', 'util/int_to_digit', 'util/int_to_digit_c', 'util/is_digit', 'util/is_lcase_letter',
      'util/is_letter', 'util/is_ucase_letter', 'util/is_whitespace', 'util/is_whitespace_c']
UH = ['boost/metaparse/%s.hpp' % h for h in UH]
def U(name, text, params, spec, **kw): X('util:' + name, text, params, spec, 'C12', UH, **kw)
for nm, f in (('is_digit', isdig), ('is_lcase_letter', islow), ('is_ucase_letter', isup), ('is_letter', lambda x: z3.Or(isup(x), islow(x))), ('is_whitespace', isws)):
    for lz in ('', '~'):
        U(nm + lz, 'mp::util::%s<$k>' % nm, [lz + 'Ct:k'], lambda c, k, f=f: b(f(k)))
        U(nm + '{curried}' + lz, 'mp::util::%s<>::apply<$k>' % nm, [lz + 'Ct:k'], lambda c, k, f=f: b(f(k)))
U('is_whitespace_c', 'mp::util::is_whitespace_c<$k>', ['C:k'], lambda c, k: b(isws(k)))
def sp_dti(c, k): return c.ite(isdig(k), lambda: ic('int', z3.simplify(k - 48)), lambda: err('digit_expected'))
U('digit_to_int_c', 'mp::util::digit_to_int_c<$k>', ['C:k'], sp_dti)
def sp_itd(c, n): return ic('char', z3.simplify(I(n) + 48))
r09 = lambda c, n: z3.And(I(n) >= 0, I(n) <= 9)
U('int_to_digit_c', 'mp::util::int_to_digit_c<$n>', ['N:n'], sp_itd, req=r09)
U('roundtrip', 'mp::util::digit_to_int<mp::util::int_to_digit<$n> >', ['Nt:n'], lambda c, n: ic('int', n), req=r09)
for lz in ('', '~'):
    U('digit_to_int' + lz, 'mp::util::digit_to_int<$k>', [lz + 'Ct:k'], sp_dti)
    U('digit_to_int{curried}' + lz, 'mp::util::digit_to_int<>::apply<$k>', [lz + 'Ct:k'], sp_dti)
    U('int_to_digit' + lz, 'mp::util::int_to_digit<$n>', [lz + 'Nt:n'], sp_itd, req=r09)
    U('int_to_digit{curried}' + lz, 'mp::util::int_to_digit<>::apply<$n>', [lz + 'Nt:n'], sp_itd, req=r09)
    for R, P_, ty in (('Ct', 'C', 'char'), ('Nt', 'N', 'int')):
        sp = lambda c, lo, hi, x: b(inr(x, lo, hi))
        t = '{%s}' % ty + lz
        U('in_range' + t, 'mp::util::in_range<$lo, $hi, $x>', [R + ':lo', R + ':hi', R + ':x'], sp)
        U('in_range{1}' + t, 'mp::util::in_range<>::apply<$lo, $hi, $x>', [R + ':lo', R + ':hi', R + ':x'], sp)
        U('in_range{2}' + t, 'mp::util::in_range<$lo>::apply<$hi, $x>', [R + ':lo', R + ':hi', R + ':x'], sp)
        U('in_range{3}' + t, 'mp::util::in_range<$lo, $hi>::apply<$x>', [R + ':lo', R + ':hi', R + ':x'], sp)
        U('in_range{4}' + t, 'mp::util::in_range<$lo>::apply<$hi>::type::apply<$x>', [R + ':lo', R + ':hi', R + ':x'], sp)
        U('in_range_c' + t, 'mp::util::in_range_c<%s, $lo, $hi>::apply<$x>' % ty, [P_ + ':lo', P_ + ':hi', lz + R + ':x'], sp)

# ============================================================ C16: build_parser
def sp_build(c, P, S):
    r = c.run(P, S, START)
    return c.ite(is_('Acc', r), lambda: a_res(r), lambda: fails(p_line(r_pos(r)), p_col(r_pos(r)), r_msg(r)))
START = T.Pos(z3.IntVal(1), z3.IntVal(1), z3.IntVal(0))
X('build_parser', 'mp::build_parser<$P>::apply<$S>', ['P:P', 'S:S'], sp_build, 'C16', ['build_parser'], noforce=True)
X('build_parser::type', 'mp::build_parser<$P>::type::apply<$S>', ['P:P', 'S:S'], sp_build, 'C16', ['build_parser'], noforce=True)

# ============================================================ C18: texts of the error messages
from fns import ch, dec
def text(*ps):
    out = []
    for x in ps:
        if isinstance(x, str): out += [ch(ord(k)) for k in x]
        elif isinstance(x, list): out += x
        else: out.append(x)
    return T.SeqT(tlist(out))
def E18(name, txt, params, spec):
    h = name.split('{')[0]
    for sfx, tt in (('', txt), ('::type', ('%s::type' if '<' in txt else '(%s)::type') % txt)):
        X('text:' + name + sfx, tt, params, spec, 'C18', ['boost/metaparse/error/%s.hpp' % h], runtext='get_value')
for nm, tx in (('digit_expected', 'Digit expected'), ('end_of_input_expected', 'End of input expected'), ('expected_to_fail', 'Parser expected to fail'), ('letter_expected', 'Letter expected'),
               ('none_of_the_expected_cases_found', 'None of the expected cases found'), ('unexpected_character', 'Unexpected character'), ('unexpected_end_of_input', 'Unexpected end of input'),
               ('whitespace_expected', 'Whitespace expected')):
    E18(nm, 'mp::error::' + nm, [], lambda c, tx=tx: text(tx))
E18('literal_expected', 'mp::error::literal_expected<$k>', ['C:k'], lambda c, k: text('Expected: ', ch(k)))
E18('index_out_of_range', 'mp::error::index_out_of_range<$f, $t, $n>', ['N:f', 'N:t', 'N:n'], lambda c, f, t, n: text('index (', dec(n), ') out of range [', dec(f), '-', dec(t), ']'))
sp_unp = lambda c, l, k, m: text(cls('text:of', m), ' (see ', dec(l), ':', dec(k), ')')
E18('unpaired', 'mp::error::unpaired<$l, $k, $m>', ['N:l', 'N:k', 'V:m'], sp_unp)
E18('unpaired{curried}', 'mp::error::unpaired<$l, $k>::apply<$m>', ['N:l', 'N:k', 'V:m'], sp_unp)

# ============================================================ C20: debug_parsing_error
from fns import cstr_pieces
def conc_cstr(x):
    l = z3.simplify(chars(x)); out = []
    while is_cons_app(l, 'icons') and l.arg(0).as_long() != 0: out.append(ch(l.arg(0))); l = l.arg(1)
    return out
def sp_debug(c, P, S):
    r = c.run(P, S, START)
    head = 'Compile-time parsing results\n----------------------------\nInput text:\n'
    end = cls('end:exited')
    cstr = lambda x: conc_cstr(x) if c.concrete else cstr_pieces(c.e, z3.simplify(chars(x)))
    ok = lambda: text(head, cstr(S), '\n\nParsing was successful. Remaining string is:\n', cstr(a_rem(r)), '\n', end)
    ko = lambda: text(head, cstr(S), '\n\nParsing failed:\nline ', dec(p_line(r_pos(r))), ', col ', dec(p_col(r_pos(r))), ': ', cls('text:of', r_msg(r)), '\n', end)
    return c.ite(is_('Acc', r), ok, ko)
for sfx, st in (('', True), ('::type', 'type')):
    X('debug_parsing_error' + sfx, 'mp::debug_parsing_error<$P, $S>', ['P:P', 'S:S'], sp_debug, 'C20', ['debug_parsing_error'], stdout=st)
X('debug_parsing_error{build_parser}', 'mp::debug_parsing_error<mp::build_parser<$P>, $S>', ['P:P', 'S:S'], sp_debug, 'C20', ['debug_parsing_error', 'build_parser'], stdout=True)

# ============================================================ C04: consumption
class PostContract(Contract):
    """a postcondition proved on the code of a template that also has a functional contract"""
    def __init__(self, prop, base, post):
        d = dict(base.__dict__)
        self.__dict__.update(d)
        self.name = '%s:%s' % (prop, base.name)
        self.prop, self.also, self.internal, self.intercept = prop, (), base.internal, False
        self.base, self.post = base.name, post
        CON[self.name] = self
    def headers(self): return CON[self.base].headers()
STAYS = ('look_ahead', 'empty', 'if_', 'return_', 'except_', 'fail_at_first_char_expected', 'end_of_input', 'fail')
def make_c04():
    for n, c in list(CON.items()):
        if c.style != 'apply' or c.apply_params != ('S', 'Pos') or ':' in n.replace('::', ''): continue
        if c.kind not in ('tmpl', 'rec', 'typedef'): continue
        PostContract('C04', c, 'stays' if n in STAYS else 'consumes')
make_c04()
