"""Facts read off declarations: no hidden shared state (P01), operands are
read-only (P03)."""
import re

import asm
import build

TRUST = ['clang 18 front end (AST, including uninstantiated templates)', 'tool/asttool.cpp',
         'lib/checks/state.py']

MUTEX = re.compile(r'^(gemmlowp::)?(Mutex|pthread_mutex_t|std::(recursive_)?mutex|pthread_once_t|'
                   r'std::once_flag)$')
# process-wide state or non-reentrant library functions
BANNED = {
    'rand', 'srand', 'random', 'srandom', 'strtok', 'strerror', 'localtime', 'gmtime', 'asctime',
    'ctime', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'tmpnam', 'drand48', 'lrand48', 'signal',
    'sigaction', 'fesetround', 'fesetenv', '_mm_setcsr', '_MM_SET_ROUNDING_MODE',
    '_MM_SET_FLUSH_ZERO_MODE', '__builtin_ia32_ldmxcsr', 'umask', 'chdir', 'setrlimit', 'nice',
    'setpriority', 'sched_setaffinity', 'pthread_setaffinity_np', 'pthread_setschedparam', 'alarm',
    'setitimer', 'mallopt',
}


def cfgs(tier):
    return build.ALL + build.EXTRA


def reachable(d):
    """Functions that an entry point may reach, following names (an
    over-approximation: every function of a mentioned name counts)."""
    by = {}
    for f in d['funcs']:
        by.setdefault(f['name'], []).append(f)
        if f['class']:
            # constructors, destructors and operators run when the type is mentioned
            if f['name'].startswith(('~', 'operator')) or re.sub(r'<.*', '', f['name']) == f['class']:
                by.setdefault(f['class'], []).append(f)
    roots = [f for f in d['funcs'] if f['loc'].startswith(('public/', 'meta/', 'eight_bit_int_gemm/'))]
    seen, work = [], list(roots)
    ids = set()
    while work:
        f = work.pop()
        if id(f) in ids:
            continue
        ids.add(id(f))
        seen.append(f)
        for n in f['mentions']:
            work += by.get(n, [])
    return seen


def check_isolation(rep, tier):
    rep.rule('static-state', 'no object with static or thread storage duration that the library can '
             'modify (directly, through a pointer or reference, or through a mutable member) is '
             'declared in code an entry point can reach; mutexes are exempt', 50)
    rep.rule('process-state', 'no reachable function uses a non-reentrant library function or changes '
             'process-wide state (locale, rounding mode, signals, affinity, ...)', 100)
    for cfg in cfgs(tier):
        d = build.ast('all.cc', cfg)
        rep.units.add('drivers/all.cc@' + cfg)
        reach = reachable(d)
        rq = {f['qual'] for f in reach}
        if not reach:
            raise build.AnalysisBroken('no entry points found')
        rep.stat('functions reachable from entry points', len(reach))
        for f in reach:
            rep.functions.add(f['qual'])
            b = BANNED & set(f['mentions'])
            rep.check('process-state', not b, '%s: %s' % (f['qual'], ' '.join(sorted(b))),
                      '%s (%s)' % (f['loc'], f['qual']),
                      'uses %s, which is not reentrant or changes process-wide state' %
                      ', '.join(sorted(b)), cfg)
        for v in d['vars']:
            t = re.sub(r'^(static|struct|class)\s+', '', v['type'])
            ok = v['const'] and not v['reach'] and not v['mutable']
            if not ok and MUTEX.match(t):
                ok = True
            if not ok and v['fn'] and v['fn'] not in rq:
                rep.stat('static objects in unreachable functions')
                ok = True
            rep.check('static-state', ok, '%s %s' % (v['fn'] or 'namespace scope', v['name']),
                      '%s (%s)' % (v['loc'], v['fn'] or 'namespace scope'),
                      'object "%s" of type %s has %s storage duration and can be modified: state shared '
                      'between contexts' % (v['name'], v['type'], 'thread' if v['tls'] else 'static'), cfg)
    return TRUST


LOADERS = re.compile(r'^(__builtin_msa_ld_|_mm\d*_(loadu?|lddqu|stream_load)|vld\d|wasm_v128_load|memcmp|memchr|'
                     r'__builtin_prefetch|_mm_prefetch|aligned_free|free)')


def check_readonly(rep, tier):
    rep.rule('const-dropped', 'no conversion removes const from a pointer or reference (so, by the type '
             'system, nothing reached through an operand map, offset, bias or output stage can be '
             'written), except to call a function that only reads', 0)
    rep.rule('const-laundered', 'no pointer to const data is turned into an integer and no pointer is '
             'made from an integer outside the scratch allocator (both together)', 0)
    rep.rule('const-api', 'the pointers to operand data that entry points and kernels take are pointers '
             'to const', 20)
    rep.rule('asm-store', 'no inline-assembly store goes through an address computed from a '
             'pointer-to-const operand', 20)
    for cfg in cfgs(tier):
        units = ['all.cc'] + ([build.REPO + '/eight_bit_int_gemm/eight_bit_int_gemm.cc']
                              if cfg in build.ALL else [])
        for u in units:
            d = build.ast(u, cfg)
            rep.units.add(u.replace(build.REPO + '/', '') + '@' + cfg)
            for f in d['funcs']:
                rep.functions.add(f['qual'])
            rep.stat('functions examined', len(d['funcs']))
            for c in d['casts']:
                site = '%s (%s)' % (c['loc'], c['fn'])
                key = '%s: %s' % (c['fn'], re.sub(r'\s+', ' ', c['text']))
                if c['drop'] or c['kind'] in ('const_cast', 'dependent'):
                    ok = bool(c['call'] and LOADERS.match(c['call']))
                    rep.check('const-dropped', ok, key, site,
                              'cast `%s` removes const (from %s to %s)' % (c['text'], c['from'], c['to']), cfg)
                elif c['kind'] == 'int->ptr':
                    src = [x for x in d['casts'] if x['kind'] == 'ptr->int']
                    ok = 'gemmlowp::Allocator::' in c['fn'] or not src
                    rep.check('const-laundered', ok, key, site,
                              '`%s` makes a writable pointer from an integer, and `%s` (%s) turns a pointer '
                              'to const into an integer' % (c['text'], src and src[0]['text'],
                                                           src and src[0]['loc']), cfg)
            for f in d['mutable_fields']:
                if f['type'].endswith('*') and 'Allocator' not in f['name']:
                    rep.bad('const-dropped', 'mutable ' + f['name'], f['loc'],
                            'mutable pointer member %s lets a const object be modified' % f['name'], cfg)
            for s in d['asms']:
                ar = asm.arch_of(triple(cfg))
                if ar is None:
                    continue
                cons = []
                nout = s['outs']
                for k, o in enumerate(s['ops']):
                    cons.append(('=' + o['c'].lstrip('=+') if k < nout else o['c']))
                a = asm.Asm(s['tmpl'], ','.join(x.replace(',', '') for x in cons), ar)
                prov = a.provenance()
                for k, x in enumerate(a.insts):
                    if not x.store or k not in prov:
                        continue
                    b = a.base_of(x)
                    if b is None:
                        rep.unk('asm-store', '%s `%s`' % (s['loc'], x), 'address not understood')
                        continue
                    org = a.origin(b, prov[k])
                    hit = [s['ops'][n] for n in org if n < len(s['ops']) and s['ops'][n]['constptr']]
                    rep.check('asm-store', not hit, '%s: %s' % (s['fn'], hit and hit[0]['name']),
                              '%s (%s)' % (s['loc'], s['fn']),
                              'asm instruction `%s` stores through %s, a pointer to const' %
                              (x, hit and hit[0]['name']), cfg)
            for p in d.get('params', []):
                pass
        api(rep, cfg)
    return TRUST


def triple(cfg):
    build.clang_flags(cfg)
    for f in build.CONFIGS[cfg]:
        if f.startswith('--target='):
            return f[9:]
    return 'x86_64-linux-gnu'


API = '''
#include "public/gemmlowp.h"
#include "public/output_stages.h"
#include <type_traits>
using namespace gemmlowp;
#define EXPR(e) decltype(e)
template <typename T> T& lv();
#define CONSTPTR(e, what) \\
  static_assert(std::is_const<typename std::remove_pointer<decltype(e)>::type>::value, what)
typedef MatrixMap<const std::uint8_t, MapOrder::RowMajor> CM;
typedef MatrixMap<const std::int8_t, MapOrder::ColMajor> CM8;
CONSTPTR(lv<CM>().data(), "MatrixMap<const>::data()");
CONSTPTR(lv<CM8>().data(), "MatrixMap<const>::data()");
CONSTPTR(lv<CM>().data(0, 0), "MatrixMap<const>::data(r, c)");
static_assert(std::is_const<typename std::remove_reference<decltype(lv<CM>()(0, 0))>::type>::value,
              "MatrixMap<const>::operator()");
CONSTPTR(lv<CM>().block(0, 0, 1, 1).data(), "MatrixMap<const>::block()");
CONSTPTR(Transpose(lv<CM>()).data(), "Transpose of a const map");
typedef VectorMap<const std::int32_t, VectorShape::Col> CV;
CONSTPTR(lv<CV>().data(), "VectorMap<const>::data()");
static_assert(std::is_const<typename std::remove_reference<decltype(lv<CV>()(0))>::type>::value,
              "VectorMap<const>::operator()");
typedef SideMap<const std::uint8_t, SideMapOrder::WidthMajor> SM;
CONSTPTR(lv<SM>().data(0, 0), "SideMap<const>::data");
template <typename R, typename... A> struct Last {};
typedef void (KernelBase::*RunT)(std::int32_t*, std::size_t, std::size_t, const std::uint8_t*,
                                 const std::uint8_t*, std::size_t, std::size_t) const;
static_assert(std::is_same<decltype(&KernelBase::Run), RunT>::value,
              "kernels take const operand pointers");
// an operand of any constness is accepted only through a const map
typedef MatrixMap<std::uint8_t, MapOrder::RowMajor> M;
typedef MatrixMap<const std::uint8_t, MapOrder::ColMajor> CC;
template <typename T> struct Dep {};
'''


def api(rep, cfg):
    ok, err = build.try_compile(API, cfg)
    n = API.count('CONSTPTR(') - 1 + API.count('static_assert(') - 1
    if ok:
        rep.ok('const-api', n)
        return
    hits = re.findall(r'static assertion failed[^:\n]*: ([^\n]*)', err)
    if hits:
        for h in hits:
            rep.bad('const-api', h, 'public/map.h', 'no longer const-correct: ' + h, cfg)
        return
    rep.unk('const-api', cfg, 'the witness no longer compiles: ' + err[:300])
    rep.ok('const-api', n)
