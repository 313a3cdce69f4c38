"""Mechanical extraction: /repo headers -> JSON of every template, typedef,
expression and function, redone from the working tree on every run.

g++ -E (same compiler and -std as the test-suite build) decides every #if and
expands every macro; the text that originates from /repo files is kept
verbatim (in order, with its line markers), text that originates from Boost /
libstdc++ is replaced by the #include directives that pulled it in; clang
parses the result and tmv-dump serialises the AST.
"""
import subprocess, os, re, json, sys, hashlib, tempfile, limits

REPO = os.environ.get('TMV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
DUMP = os.environ.get('TMV_DUMP', os.path.join(HERE, '..', 'build', 'tmv-dump'))

class ExtractError(Exception):
    pass

def all_headers():
    inc = os.path.join(REPO, 'include')
    top = []
    base = os.path.join(inc, 'boost', 'metaparse')
    # public entry headers: whatever lies directly in boost/metaparse and error/, util/
    for dp, dn, fn in os.walk(base):
        rel = os.path.relpath(dp, base)
        if rel == 'v1' or rel.startswith('v1' + os.sep):
            continue
        for f in sorted(fn):
            if f.endswith('.hpp'):
                top.append(os.path.relpath(os.path.join(dp, f), inc))
    v1 = []
    for dp, dn, fn in os.walk(os.path.join(base, 'v1')):
        for f in sorted(fn):
            if f.endswith('.hpp'):
                v1.append(os.path.relpath(os.path.join(dp, f), inc))
    return sorted(top), sorted(v1)

def preprocess(std, headers, defs=(), workdir='/tmp', tag='tu'):
    src = ''.join('#include <%s>\n' % h for h in headers)
    p = os.path.join(workdir, '%s_%s.cpp' % (tag, std))
    open(p, 'w').write(src)
    r = subprocess.run(['g++', '-std=c++' + std, '-E', '-dD' if False else '-C' if False else '-E', '-I', os.path.join(REPO, 'include')] + list(limits.DEFS) + list(defs) + [p],
                       capture_output=True, text=True, errors='surrogateescape')
    if r.returncode != 0:
        raise ExtractError('preprocessing failed (std %s): %s' % (std, r.stderr[:2000]))
    return r.stdout

def digest(std, headers, workdir):
    """of the text and the macros /repo contributes in this standard"""
    text = preprocess(std, headers, ('-dD',), workdir, 'dg')
    ext, body = stitch(text)
    return hashlib.sha1(re.sub(r'(?m)^# .*$|^\s*\n', '', body).encode('utf8', 'surrogateescape')).hexdigest()

MARK = re.compile(r'^# (\d+) "((?:[^"\\]|\\.)*)"((?: \d)*)\s*$')

def stitch(text):
    inc = os.path.join(REPO, 'include')
    out = []
    ext = []
    seen = set()
    cur_repo = False
    curfile = None
    stack = []
    for line in text.split('\n'):
        m = MARK.match(line)
        if m:
            f = m.group(2)
            flags = m.group(3).split()
            newrepo = f.startswith(inc)
            if '1' in flags and not newrepo and (cur_repo or (curfile or '').rsplit('/', 1)[-1].startswith('tu_')):
                if f not in seen and os.path.exists(f):
                    seen.add(f)
                    ext.append(f)
            cur_repo = newrepo
            curfile = f
            if cur_repo:
                out.append('# %s "%s"' % (m.group(1), f))
            continue
        if cur_repo:
            out.append(line)
    return ext, '\n'.join(out)

def headers_included(text):
    inc = os.path.join(REPO, 'include')
    return sorted({m.group(2) for m in map(MARK.match, text.split('\n')) if m and m.group(2).startswith(inc)})

EXTRA = ['boost/mpl/if.hpp','boost/mpl/eval_if.hpp','boost/mpl/bool.hpp','boost/mpl/int.hpp','boost/mpl/char.hpp',
         'boost/mpl/identity.hpp','boost/mpl/logical.hpp','boost/mpl/comparison.hpp','boost/mpl/vector.hpp',
         'boost/mpl/integral_c.hpp','boost/mpl/apply.hpp','boost/mpl/plus.hpp','boost/mpl/minus.hpp','boost/mpl/times.hpp',
         'boost/mpl/next.hpp','boost/mpl/prior.hpp','boost/mpl/size.hpp','boost/mpl/at.hpp',
         'boost/mpl/front.hpp','boost/mpl/back.hpp','boost/mpl/empty.hpp','boost/mpl/push_back.hpp','boost/mpl/push_front.hpp','boost/mpl/pop_back.hpp',
         'boost/mpl/pop_front.hpp','boost/mpl/clear.hpp','boost/mpl/begin_end.hpp','boost/mpl/deref.hpp','boost/mpl/advance.hpp','boost/mpl/distance.hpp','boost/mpl/equal_to.hpp']

def run(std, headers, workdir, defs=(), bare=False, append=''):
    text = preprocess(std, headers, defs, workdir)
    ext, body = stitch(text)
    pre = '' if bare else ''.join('#include <%s>\n' % e for e in EXTRA)
    # external headers are pulled in by their path relative to an include root
    for e in ext:
        pre += '#include "%s"\n' % e
    tu = os.path.join(workdir, 'stitched_%s.cpp' % std)
    open(tu, 'w', errors='surrogateescape').write(pre + '\n' + body + ('\n# 1 "%s"\n%s\n' % (os.path.join(REPO, 'include', 'vn_refs.hpp'), append) if append else ''))
    out = os.path.join(workdir, 'ast_%s.json' % std)
    r = subprocess.run([DUMP, '--root', os.path.join(REPO, 'include'), '--in', tu, '--out', out,
                        '-std=c++' + std, '-w', '-ftemplate-depth=1024', '-ferror-limit=20', '-x', 'c++',
                        '-I/usr/lib/llvm-18/lib/clang/18/include'],
                       capture_output=True, text=True, errors='replace')
    if r.returncode != 0:
        raise ExtractError('clang could not parse the extracted sources (std %s): %s' % (std, r.stderr[:3000]))
    return out, body, text

if __name__ == '__main__':
    std = sys.argv[1]
    wd = sys.argv[2]
    os.makedirs(wd, exist_ok=True)
    top, v1 = all_headers()
    out, body, text = run(std, top, wd)
    print(out, os.path.getsize(out), len(body))
    print('v1 headers not included:', [h for h in v1 if os.path.join(REPO,'include',h) not in headers_included(text)][:50])
