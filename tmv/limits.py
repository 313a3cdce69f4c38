"""C++98 limits (documented as user-definable): the defaults, or those of TMV_LIMITS=string=6,sequence=3,..."""
import os
DEFAULT = {'string': 32, 'sequence': 5, 'one_of': 20, 'except': 10}
MACRO = {'string': 'BOOST_METAPARSE_LIMIT_STRING_SIZE', 'sequence': 'BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE', 'one_of': 'BOOST_METAPARSE_LIMIT_ONE_OF_SIZE',
         'except': 'BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE'}
SET = {k: int(v) for k, v in (x.split('=') for x in os.environ.get('TMV_LIMITS', '').split(',') if x)}
LIM = dict(DEFAULT, **SET)
STR, SEQ, ONEOF, EXCEPT = LIM['string'], LIM['sequence'], LIM['one_of'], LIM['except']
DEFS = tuple('-D%s=%d' % (MACRO[k], v) for k, v in sorted(SET.items()))
TITLE = ', '.join('%s=%d' % (MACRO[k], v) for k, v in sorted(SET.items()))
# the configurations verified besides the default one: smaller, and (where the arity matters) larger than it
SMALL = 'string=6,sequence=3,one_of=6,except=3'
LARGE = 'string=40,sequence=7,except=13'
PROPS = {'C05': (SMALL, LARGE), 'C06': (SMALL, LARGE), 'C07': (SMALL,), 'C13': (SMALL,), 'C14': (SMALL,)}
PROPS_THOROUGH = {'C14': (SMALL, 'string=40'), 'C04': (SMALL,), 'C08': (SMALL,)}
