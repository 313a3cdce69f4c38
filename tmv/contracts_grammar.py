"""Contracts on the grammar builder (grammar.hpp).  The subject of each contract is a whole
grammar: a chain of ::import and ::rule with literal texts, symbolic imported parsers and
symbolic semantic actions.  The specification reads the same texts with a parser of the
grammar language written here, and gives the grammar its documented meaning in terms of the
specifications of lit, sequence, one_of, repeated, repeated1 and transform."""
import z3
from terms import *
from spec import *
from contracts import *
import contracts as K

# ---------------------------------------------------------------- the grammar language
class Bad(Exception): pass
def parse_rule(text):
    i = 0
    def ws():
        nonlocal i
        while i < len(text) and text[i] in ' \t\r\n': i += 1
    def name():
        nonlocal i
        j = i
        while i < len(text) and (text[i].isascii() and text[i].isalnum() or text[i] == '_'): i += 1
        if i == j: raise Bad()
        r = text[j:i]; ws()
        return r
    def at(x): return text.startswith(x, i)
    def eat(x):
        nonlocal i
        if not at(x): raise Bad()
        i += len(x); ws()
    def primary():
        nonlocal i
        if at("'"):
            i += 1
            if at('\\'):
                i += 1
                if i >= len(text) or text[i] not in "nrt\\'": raise Bad()
                ch = {'n': '\n', 'r': '\r', 't': '\t'}.get(text[i], text[i])
            else:
                if i >= len(text) or text[i] == "'": raise Bad()
                ch = text[i]
            i += 1
            eat("'")
            return ('lit', ch)
        if at('('):
            eat('('); e = expr(); eat(')')
            return e
        return ('ref', name())
    def rep():
        nonlocal i
        e = primary()
        while at('*') or at('+'):
            e = ('rep' if at('*') else 'rep1', e); i += 1; ws()
        return e
    def seq():
        e = rep()
        while i < len(text) and text[i] not in '|)': e = ('seq', e, rep())
        return e
    def expr():
        e = seq()
        while at('|'):
            eat('|'); e = ('alt', e, seq())
        return e
    n = name(); eat('::='); e = expr()
    if i != len(text): raise Bad()
    return n, e
def parse_name(text):
    j = 0
    while j < len(text) and (text[j].isascii() and text[j].isalnum() or text[j] == '_'): j += 1
    if not j: raise Bad()
    return text[:j]

# ---------------------------------------------------------------- its meaning
def den(c, rules, acts, node):
    """the parser a grammar expression stands for"""
    k = node[0]
    def mk(tag, subs, f): return SpecFn('grammar:' + tag, [c.tok(x) for x in subs] if not c.concrete else (), f)
    if k == 'lit': return SpecFn('lit:%d' % ord(node[1]), (), lambda c2, S, Pos: CON['lit_c'].spec(c2, z3.IntVal(ord(node[1])), S, Pos))
    if k == 'ref':
        r = rules[node[1]]
        p = r[1] if r[0] == 'native' else den(c, rules, acts, r[1])
        f = acts.get(node[1])
        if f is None: return p
        return mk('action', [p, f], lambda c2, S, Pos: sp_transform(c2, p, f, S, Pos))
    if k in ('rep', 'rep1'):
        p = den(c, rules, acts, node[1])
        return mk(k, [p], lambda c2, S, Pos: CON['repeated' if k == 'rep' else 'repeated1'].spec(c2, p, S, Pos))
    a, b = den(c, rules, acts, node[1]), den(c, rules, acts, node[2])
    if k == 'seq': return mk(k, [a, b], lambda c2, S, Pos: sp_sequence(c2, [a, b], S, Pos))
    return mk(k, [a, b], lambda c2, S, Pos: sp_one_of_list(c2, [a, b], S, Pos))

GRAMMARS = []
def quote(s): return '"' + ''.join({'\n': '\\n', '\r': '\\r', '\t': '\\t', '\\': '\\\\', '"': '\\"'}.get(x, x) for x in s) + '"'
def G(name, steps, start='S', **kw):
    """steps: 'rule text' | ('rule text', 'action') | ('name', '=parser')"""
    text = 'mp::grammar<%s>' % ('' if start is None else quote(start))
    params = []; lits = ''
    for s in steps:
        if isinstance(s, str): text += '::rule<%s>::type' % quote(s); lits += s
        elif s[1].startswith('='):
            q = 'P:' + s[1][1:]; text += '::import<%s,$%s>::type' % (quote(s[0]), s[1][1:])
            if q not in params: params.append(q)
        elif s[1].startswith('@'): text += '::rule<%s,%s>::type' % (quote(s[0]), s[1][1:]); lits += s[0]
        else:
            q = 'F:' + s[1]; text += '::rule<%s,$%s>::type' % (quote(s[0]), s[1]); lits += s[0]
            if q not in params: params.append(q)
    def spec(c, *a):
        env = dict(zip([p.split(':')[1] for p in params], a[:len(params)]))
        S, Pos = a[-2:]
        rules, acts = {}, {}
        try:
            for s in steps:
                if isinstance(s, str): n, e = parse_rule(s); rules[n] = ('expr', e)
                elif s[1].startswith('='): rules[parse_name(s[0])] = ('native', env[s[1][1:]])
                else: n, e = parse_rule(s[0]); rules[n] = ('expr', e); acts[n] = SpecFn('placeholder' + s[1], (), s[2]) if s[1][0] == '@' else env[s[1]]
            st = parse_name('S' if start is None else start)
            p = den(c, rules, acts, ('ref', st))
        except (Bad, KeyError): raise IllFormed('not a grammar')
        return c.run(p, S, Pos)
    kw.setdefault('prop', 'C17')
    con = Contract('grammar: ' + name, params, spec, kind='expr', style='apply', text=text, header=['boost/metaparse/grammar.hpp', 'boost/metaparse/string.hpp', 'boost/mpl/front.hpp', 'boost/mpl/back.hpp', 'boost/mpl/lambda.hpp', 'boost/mpl/placeholders.hpp'], intercept=False, **kw)
    try: q = [e for e in lits.replace("\\'", '')]
    except Exception: q = []
    con.alphabet = [ord(x) for x in lits if x not in " :='"] or None
    con.illcase = True
    GRAMMARS.append(con)
    return con


A, B, C = ('a', '=p'), ('b', '=q'), ('c', '=r')
# symbols, start symbol, definition order, actions
G('imported start symbol', [('S', '=p')])
G('default start symbol', [('S', '=p')], start=None)
G('other start symbol', [('S', '=p'), ('T', '=q')], start='T')
G('start symbol defined by a rule', [A, ('S', '=q'), 'exp ::= a'], start='exp')
G('reference', [('I', '=p'), 'S ::= I'])
G('reference to a rule', [A, 'R ::= a', 'S ::= R'])
G('rule used before its definition', [A, 'S ::= R a', 'R ::= a'])
G('import after its use', ['S ::= a', A])
G('names with digits and underscores', [('a_1', '=p'), ('_', '=q'), ('0Z', '=r'), 'S ::= a_1 _ 0Z'])
G('names that share a prefix', [('ab', '=p'), ('a', '=q'), ('abc', '=r'), 'S ::= a ab abc'])
G('names are case sensitive', [('a', '=p'), ('A', '=q'), 'S ::= A a'])
G('all letters and digits in names', [('azAZ09_ymnbB18', '=p'), 'S ::= azAZ09_ymnbB18'])
G('a symbol used twice', [A, 'S ::= a a'])
G('import over a rule', [A, B, 'R ::= a', ('R', '=q'), 'S ::= R'])
G('action', [A, ('S ::= a', 'f')])
G('action on a character', [("S ::= 'x'", 'f')])
G('action on a sequence', [A, B, ('S ::= a b', 'f')])
G('action of an inner rule', [A, B, ('R ::= a', 'f'), 'S ::= R b'])
G('actions of both rules', [A, ('R ::= a', 'f'), ('S ::= R', 'g')])
G('action under repetition', [A, ('R ::= a', 'f'), 'S ::= R*'])
G('action on a repetition', [A, ('S ::= a*', 'f')])
G('two actions in a choice', [A, B, ('R ::= a', 'f'), ('Q ::= b', 'g'), 'S ::= R | Q'])
G('placeholder expression', [A, B, ('S ::= a b', '@mpl::front<mpl::arg<1>>', lambda c, x: thd(sq_elems(x)))])
G('placeholder expression, other', [A, B, ('R ::= a b', '@mpl::back<mpl::arg<1>>', lambda c, x: thd(ttl(sq_elems(x)))), 'S ::= R b'])
# characters
for _n, _t in (('letter', 'x'), ('newline', '\\n'), ('carriage return', '\\r'), ('tab', '\\t'), ('backslash', '\\\\'), ('quote', "\\'"),
               ('raw newline', '\n'), ('bar', '|'), ('opening bracket', '('), ('closing bracket', ')'), ('star', '*'), ('plus', '+'), ('space', ' '), ('colon', ':'),
               ('equal sign', '='), ('digit', '0'), ('underscore', '_'), ('letter n', 'n'), ('letter t', 't'), ('double quote', '"')):
    G('character: ' + _n, ["S ::= '%s'" % _t])
G('characters in sequence', ["S ::= 'a' 'b'"])
G('characters in a choice', ["S ::= 'a' | 'b'"])
G('space and escape together', ["S ::= ' ' '\\n' '\\\\'"])
# operators and their precedence
G('sequence', [A, B, 'S ::= a b'])
G('three in sequence', [A, B, C, 'S ::= a b c'])
G('choice', [A, B, 'S ::= a | b'])
G('three in a choice', [A, B, C, 'S ::= a | b | c'])
G('repetition', [A, 'S ::= a*'])
G('non-empty repetition', [A, 'S ::= a+'])
G('repetition twice', [A, 'S ::= a+*'])
G('repetition binds tighter than sequence', [A, B, 'S ::= a b*'])
G('repetition first in a sequence', [A, B, 'S ::= a+ b'])
G('repetition in a choice', [A, B, 'S ::= a | b*'])
G('sequence binds tighter than choice', [A, B, C, 'S ::= a b | c'])
G('sequence binds tighter than choice, right', [A, B, C, 'S ::= a | b c'])
G('bracketed symbol', [A, 'S ::= (a)'])
G('nested brackets', [A, 'S ::= ((a))'])
G('brackets right of a sequence', [A, B, C, 'S ::= a (b c)'])
G('brackets left of a sequence', [A, B, C, 'S ::= (a b) c'])
G('brackets right of a choice', [A, B, C, 'S ::= a | (b | c)'])
G('choice in a sequence', [A, B, C, 'S ::= a (b | c)'])
G('choice first in a sequence', [A, B, C, 'S ::= (a | b) c'])
G('repetition of a sequence', [A, B, 'S ::= (a b)*'])
G('repetition of a choice', [A, B, 'S ::= (a | b)+'])
G('repetition of a repetition', [A, 'S ::= (a+)*'])
G('brackets end a repetition', [A, B, 'S ::= (a)* b'])
G('separated list', [A, B, 'S ::= a (b a)*'])
G('repeated character', ["S ::= 'x'*"])
G('repeated characters', ["S ::= ('x' | 'y')+"])
# white space
G('no white space', [A, B, 'S::=a b'])
G('no white space between operators', [A, B, C, 'S::=(a|b)*c+'])
G('no white space around characters', [A, "S::='x'a'y'"])
G('white space around everything', [A, B, C, 'S  ::=  ( a | b ) *  c  +'])
G('tabs and line ends', [A, B, 'S\t::=\r\na\tb\n|\ra '])
G('white space at the end', [A, "S ::= 'x' a  "])
# texts that are not rules: rejected
for _n, _t in (('empty text', ''), ('name only', 'S'), ('no definition', 'S ::= '), ('wrong definition sign', 'S := a'), ('white space in front', ' S ::= a'),
               ('unclosed bracket', 'S ::= (a'), ('unopened bracket', 'S ::= a)'), ('empty brackets', 'S ::= ()'), ('unclosed quote', "S ::= 'x"), ('two characters in quotes', "S ::= 'xy'"),
               ('empty quotes', "S ::= ''"), ('unknown escape', "S ::= '\\x'"), ('lone backslash', "S ::= '\\'"), ('leading operator', 'S ::= *a'), ('trailing bar', 'S ::= a |'), ('two bars', 'S ::= a || a'),
               ('unknown character', 'S ::= a?'), ('comma', 'S ::= a,a'), ('undefined symbol', 'S ::= b'), ('name with a dash', 'S-1 ::= a')):
    G('rejected: ' + _n, [A, _t])
G('rejected: no start symbol', [A, 'R ::= a'])

# ---------------------------------------------------------------- the parser of rule texts, for every text
# The classes that represent parsed definitions are the library's own; what they mean is the subject of the
# 'grammar_util::...' contracts further down.
GU = 'grammar_util::'
GI = dict(prop='C17', internal=True, header='boost/metaparse/grammar.hpp')
def sf(name, f): return SpecFn('gu:' + name, (), f)
def level(name, u, kind='typedef'):
    """a named parser of the rule language: used by its contract, unfolded where it is verified"""
    R = RecFn('grammar_' + name, [T, T], u)
    con = Contract(GU + name, [], u, use=lambda c, S, Pos: c.rec(R, S, Pos), kind=kind, **GI)
    con.modular = True
    con.cases = lambda con, std, seed, n: []
    return sf(name, lambda c, S, Pos: c.rec(R, S, Pos))
def lit_p(ch): return sf('lit%d' % ord(ch), lambda c, S, Pos: CON['lit_c'].spec(c, z3.IntVal(ord(ch)), S, Pos))
def alt_p(name, *ps): return sf(name, lambda c, S, Pos: sp_one_of_list(c, list(ps), S, Pos))
def tr_p(name, p, f): return sf(name, lambda c, S, Pos: sp_transform(c, p, f, S, Pos))
def ret_p(p, v, name): return sf(name, lambda c, S, Pos: sp_always(c, p, v, S, Pos))
def build(c, opname):
    """the library's constructor of a representation"""
    if c.concrete: raise Unsupported('representation')
    return c.e.named_rec(NS + GU + opname)
def token_level(name, p): return level(name, lambda c, S, Pos: sp_token(c, p, S, Pos))
STAR, PLUS, BAR, OPEN, CLOSE = (token_level(n, lit_p(ch)) for n, ch in (('repeated_token', '*'), ('repeated1_token', '+'), ('or_token', '|'), ('open_bracket_token', '('), ('close_bracket_token', ')')))
DEFINE = token_level('define_token', sf('::=', lambda c, S, Pos: sp_keyword(c, Str(ilist([z3.IntVal(58), z3.IntVal(58), z3.IntVal(61)])), IVOID, S, Pos)))
ESC = alt_p('escape', *([ret_p(lit_p(k), ic('char', ord(v)), 'esc ' + k) for k, v in (('n', '\n'), ('r', '\r'), ('t', '\t'))] + [lit_p('\\'), lit_p("'")]))
def sp_char_token(c, S, Pos):
    esc = sf('escaped', lambda c, S, Pos: sp_last_of(c, [lit_p('\\'), ESC], S, Pos))
    plain = sf('plain', lambda c, S, Pos: sp_char_when(lambda c, x: x != 39, err('unexpected_character'))(c, S, Pos))
    close = sf('closing quote', lambda c, S, Pos: sp_token(c, lit_p("'"), S, Pos))
    return sp_middle_of(c, lit_p("'"), alt_p('char', esc, plain), close, S, Pos)
CHAR = level('char_token', sp_char_token)
NAMECH = alt_p('namechar', sf('alphanum', CON['alphanum'].spec), lit_p('_'))
PF = sf('push_front', lambda c, s, x: Str(IL.icons(ic_val(x), s_chars(s))))
NAME = token_level('name_token', sf('name', lambda c, S, Pos: CON['foldr1'].spec(c, NAMECH, Str(IL.inil), PF, S, Pos)))
EXPR = sf('expression', lambda c, S, Pos: c.rec(RECS['grammar_expression'], S, Pos))
BR = level('bracket_expression', lambda c, S, Pos: sp_middle_of(c, OPEN, EXPR, CLOSE, S, Pos))
NAMEX = level('name_expression', lambda c, S, Pos: sp_one_of_list(c, [tr_p('bchar', CHAR, build(c, 'build_char')), tr_p('bname', NAME, build(c, 'build_name')), BR], S, Pos))
REPX = level('repeated_expression', lambda c, S, Pos: start_with(sp_foldl)(c, alt_p('star or plus', STAR, PLUS), NAMEX, build(c, 'build_repeated'), S, Pos))
SEQX = level('seq_expression', lambda c, S, Pos: start_with(sp_foldl)(c, REPX, REPX, build(c, 'build_sequence'), S, Pos))
def u_expression(c, S, Pos):
    more = sf('or seq', lambda c, S, Pos: sp_last_of(c, [BAR, SEQX], S, Pos))
    return start_with(sp_foldl)(c, more, SEQX, build(c, 'build_selection'), S, Pos)
level('expression', u_expression, kind='rec')
RULE = level('rule_definition', lambda c, S, Pos: sp_sequence(c, [NAME, DEFINE, EXPR], S, Pos))
LEVELS = ['repeated_token', 'repeated1_token', 'or_token', 'open_bracket_token', 'close_bracket_token', 'define_token', 'char_token', 'name_token', 'bracket_expression', 'name_expression',
          'repeated_expression', 'seq_expression', 'expression', 'rule_definition']

# ---------------------------------------------------------------- what the representations mean, for every grammar G and all parts
def meaning(name, text, params, spec):
    con = Contract(GU + name, params, spec, kind='expr', style='apply', text=text + '::type::apply<$G>::type', intercept=False, **GI)
    con.cases = lambda con, std, seed, n: []
def part(c, F, G): return c.app(F, G)
meaning('build_char', '(mp::grammar_util::build_char)::apply<$k>', ['Ct:k', 'V:G'], lambda c, k, G, S, Pos: CON['lit_c'].spec(c, k, S, Pos))
meaning('build_repeated *', '(mp::grammar_util::build_repeated)::apply<$F,mpl::char_<42>>', ['F:F', 'V:G'], lambda c, F, G, S, Pos: CON['repeated'].spec(c, part(c, F, G), S, Pos))
meaning('build_repeated +', '(mp::grammar_util::build_repeated)::apply<$F,mpl::char_<43>>', ['F:F', 'V:G'], lambda c, F, G, S, Pos: CON['repeated1'].spec(c, part(c, F, G), S, Pos))
meaning('build_sequence', '(mp::grammar_util::build_sequence)::apply<$E,$F>', ['F:E', 'F:F', 'V:G'], lambda c, E, F, G, S, Pos: sp_sequence(c, [part(c, E, G), part(c, F, G)], S, Pos))
meaning('build_selection', '(mp::grammar_util::build_selection)::apply<$E,$F>', ['F:E', 'F:F', 'V:G'], lambda c, E, F, G, S, Pos: sp_one_of_list(c, [part(c, E, G), part(c, F, G)], S, Pos))
meaning('build_native_parser', 'mp::grammar_util::build_native_parser<$P>', ['P:P', 'V:G'], lambda c, P, G, S, Pos: c.run(P, S, Pos))
