"""seedtool.py make SPEC.py   - creates /verif/seeded/<id>/ for each S(...) in SPEC.py and validates it
   seedtool.py valid ID...     - re-validates existing ones
   seedtool.py run ID...       - runs the property's check with the patch applied
Applies to /repo, always undoes."""
import sys, os, json, subprocess, time
SD = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 when the library behaves as documented
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
for s in %s; do
  g++ -std=c++$s -w -ftemplate-depth-600 -I "$PWD/include" "$d/demo.cpp" -o "$w/a" || exit 1
  timeout 60 "$w/a" || exit 1
done
exit 0
'''
HEAD = '''#include <boost/mpl/equal_to.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/front.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/metaparse/string.hpp>
#include <boost/metaparse/start.hpp>
#include <boost/metaparse/source_position.hpp>
#include <boost/metaparse/get_result.hpp>
#include <boost/metaparse/get_remaining.hpp>
#include <boost/metaparse/get_position.hpp>
#include <boost/metaparse/get_message.hpp>
#include <boost/metaparse/get_line.hpp>
#include <boost/metaparse/get_col.hpp>
#include <boost/metaparse/get_prev_char.hpp>
#include <boost/metaparse/is_error.hpp>
#include <boost/type_traits/is_same.hpp>
#include <cstdio>
using namespace boost::metaparse;
namespace mpl = boost::mpl;
template <class R> struct posof : get_position<R>::type {};
template <class R, int L, int C> struct at_pos { enum { value = get_line<typename get_position<R>::type>::type::value == L && get_col<typename get_position<R>::type>::type::value == C }; };
static int bad = 0;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED line %d: %s\\n", __LINE__, #__VA_ARGS__); bad = 1; } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    sh('git -C /repo checkout -- .')
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout == ''
def demo(id): return sh('cd /repo && timeout 300 bash %s/%s/demo.sh' % (SD, id))
def tests():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build failed: ' + (r.stderr + r.stdout)[-600:]
    r = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    o = json.load(open('/tmp/seed_out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    def passed(x):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if k in x: return set(x[k]) if not isinstance(x[k], dict) else {t for t, v in x[k].items() if v in ('passed', True, 'pass')}
        raise SystemExit(str(list(x)))
    miss = passed(b) - passed(o)
    return '' if not miss else 'tests fail: ' + ' '.join(sorted(miss)[:6])
def valid(id):
    clean()
    r = demo(id)
    if r.returncode: return 'demo fails on the clean tree: ' + (r.stdout + r.stderr)[-800:]
    p = '%s/%s/patch.diff' % (SD, id)
    r = sh('git -C /repo apply %s' % p)
    if r.returncode: return 'patch: ' + r.stderr
    try:
        r = demo(id)
        if r.returncode == 0: return 'demo passes with the patch'
        return tests()
    finally: clean()
def run(id):
    prop = json.load(open('%s/%s/meta.json' % (SD, id)))['property']
    clean(); r = sh('git -C /repo apply %s/%s/patch.diff' % (SD, id))
    assert r.returncode == 0, r.stderr
    t = time.time()
    try: r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3-vt tmv/check.py %s --tier quick' % prop)
    finally: clean()
    ok = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
    print('%-28s %s rc=%d %.0fs %s' % (id, prop, r.returncode, time.time() - t, 'CAUGHT' if ok else 'MISSED'))
    print('   ' + '\n   '.join(l[:230] for l in (r.stdout + r.stderr[-800:]).strip().split('\n')[-6:]))
def S(id, prop, edits, needs, breaks, demo_body, stds='98 11 14 17', includes=(), files=None):
    d = '%s/%s' % (SD, id); os.makedirs(d, exist_ok=True)
    clean()
    for f, a, b in edits:
        p = '/repo/include/boost/metaparse/' + f
        s = open(p).read()
        if a is None:
            i = s.index('#include'); open(p, 'w').write(s[:i] + ''.join('#include <%s>\n' % x for x in b) + s[i:]); continue
        assert s.count(a) >= 1, (id, f, 'pattern not found'); assert s.count(a) == 1, (id, f, 'ambiguous', s.count(a))
        open(p, 'w').write(s.replace(a, b))
    df = sh('git -C /repo diff').stdout; clean()
    open(d + '/patch.diff', 'w').write(df)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(DEMO % stds)
    for n, t in (files or {}).items(): open(d + '/' + n, 'w').write(t)
    body = '// see demo.sh\nint main() {}\n' if demo_body is None else HEAD + ''.join('#include <boost/%s.hpp>\n' % i for i in includes) + demo_body
    if 'int main' not in body: raise SystemExit('no main')
    if demo_body is not None: open(d + '/demo.cpp', 'w').write(body)
    r = valid(id)
    print('%-28s %s' % (id, 'VALID' if not r else 'INVALID ' + r), flush=True)
    if r and KEEP is False: sh('rm -rf ' + d)
KEEP = False
if __name__ == '__main__':
    if sys.argv[1] == 'make': exec(open(sys.argv[2]).read())
    elif sys.argv[1] == 'valid':
        for i in sys.argv[2:] or sorted(os.listdir(SD)): print(i, valid(i) or 'VALID', flush=True)
    else:
        for i in sys.argv[2:] or sorted(os.listdir(SD)): run(i)
