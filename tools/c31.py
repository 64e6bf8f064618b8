"""C31: the cases of harness/c23.cpp evaluated for other targets by clang's constant evaluator, which knows each target's
byte order, widths and signedness, compared block by block with the program run on this host."""
import os, re, threading, time
from concurrent.futures import ThreadPoolExecutor

CL = ['clang++-18', '-std=c++20', '-fconstexpr-steps=2147483647', '-fconstexpr-depth=100000', '-ftemplate-depth=100000', '-O0', '-w', '-DFOREIGN', '-DEMIT', '-S', '-emit-llvm']
HOST = ['g++-13', '-std=c++20', '-O1', '-w', '-DFOREIGN', '-Dalways_inline=unused']
ALL = list(range(13))
WINDOWS = ['--target=x86_64-linux-gnu', '-D_WIN32', '-fshort-wchar']
# name, flags, spaces, what is different. *: thorough only
TARGETS = [
    ('powerpc', ['--target=powerpc-linux-gnu'], ALL, 'big endian, 32-bit size_t and long, unsigned char'),
    ('windows', WINDOWS, [1, 11, 12], '16-bit wchar_t'),
    ('*i686', ['--target=i686-linux-gnu'], ALL, '32-bit size_t and long'),
    ('*s390x', ['--target=s390x-linux-gnu'], ALL, 'big endian'),
    ('*armv7', ['--target=armv7-linux-gnueabihf'], ALL, '32-bit size_t and long, unsigned wchar_t'),
    ('*mips64', ['--target=mips64-linux-gnuabi64'], [0, 3, 4, 5, 7, 8, 10, 11, 12], 'big endian'),
    ('*windows32', ['--target=i686-linux-gnu', '-D_WIN32', '-fshort-wchar'], ALL, '32-bit size_t and long, 16-bit wchar_t'),
    ('*powerpc-17', ['--target=powerpc-linux-gnu', '-std=c++17'], ALL, 'big endian, 32-bit, C++17'),
]
SPACES = ['v4_texts', 'v6_texts', 'network_texts', 'v4_values', 'v6_values', 'v4_networks', 'v6_networks', 'network_pairs', 'integers', 'integer_texts', 'small_types', 'scope_texts', 'encodings', 'byte_order_detection']
CHUNK = {'quick': [80, 80, 80, 13, 9, 7, 2, 14, 60, 43, 54, 110, 60], 'thorough': [80, 80, 60, 20, 10, 10, 4, 18, 80, 80, 60, 80, 60]}
BLOCK = 8
# byte order detection: target, big endian, must be known by architecture
ENDIAN = [('x86_64-linux-gnu', 0, 1), ('i686-linux-gnu', 0, 1), ('powerpc-linux-gnu', 1, 1), ('powerpc64-linux-gnu', 1, 1), ('s390x-linux-gnu', 1, 1), ('sparc-linux-gnu', 1, 1),
          ('sparcv9-linux-gnu', 1, 1), ('mips-linux-gnu', 1, 1), ('mips64-linux-gnuabi64', 1, 1), ('armv7-linux-gnueabihf', 0, 0), ('aarch64-linux-gnu', 0, 0), ('riscv64-linux-gnu', 0, 0)]
WAYS = ['HOW_COMPILER', 'HOW_GLIBC', 'HOW_MACROS', 'HOW_ARCH']
ENDIAN_CASES = [(t, w, s) for t in ENDIAN for w in WAYS for s in (14, 17, 20)]
STD = ['/usr/include/c++/13', '/usr/include/x86_64-linux-gnu/c++/13', '/usr/include/x86_64-linux-gnu', '/usr/include']


def find(name):
    for n, flags, spaces, what in TARGETS:
        if n.lstrip('*') == name:
            return flags
    raise KeyError(name)


def headers(build_dir):
    """the C library's headers are this host's; they ask for one file per word size"""
    d = os.path.join(build_dir, 'stub', 'gnu')
    os.makedirs(d, exist_ok=True)
    for f in ('stubs-32.h', 'stubs-x32.h', 'stubs-64.h'):
        open(os.path.join(d, f), 'a').close()
    os.makedirs(os.path.join(d, '..', 'big', 'bits'), exist_ok=True)
    open(os.path.join(d, '..', 'big', 'bits', 'endianness.h'), 'w').write('#define __BYTE_ORDER __BIG_ENDIAN\n')
    return sum([['-isystem', x] for x in [os.path.join(build_dir, 'stub')] + STD], [])


def endian(i, build_dir, D):
    """None, or how the detection of the byte order goes wrong"""
    (target, big, known), way, std = ENDIAN_CASES[i]
    cmd = ['clang++-18', '--target=' + target, '-std=c++%d' % std, '-w', '-fsyntax-only', '-D' + way, '-DLITTLE=%d' % (1 - big)] + (['-isystem', os.path.join(build_dir, 'stub', 'big')] if big else []) + headers(build_dir)
    rc, out = D.sh(cmd + ['-I', os.path.join(D.REPO, 'include'), os.path.join(D.VERIF, 'harness', 'c31_endian.cpp')], timeout=600)
    if rc == 0 or (way == 'HOW_ARCH' and not known and 'Needs to define IPADDRESS_ENDIAN' in out):
        return None
    if D.sh(cmd + ['-DPLAIN', os.path.join(D.VERIF, 'harness', 'c31_endian.cpp')], timeout=600)[0]:
        raise RuntimeError('c31_endian %s: %s' % (target, out[-1000:]))
    return '%s, C++%d, byte order found by %s: %s' % (target, std, {'HOW_COMPILER': 'the macros of the compiler', 'HOW_GLIBC': "the C library's endian.h", 'HOW_MACROS': '_LITTLE_ENDIAN or _BIG_ENDIAN', 'HOW_ARCH': 'the architecture'}[way], first_error(out) or out[-300:])


def part(tier, space, first, last, block):
    return ['-DPART=%d' % space, '-DFROM=%d' % first, '-DTO=%d' % last, '-DBLOCK=%d' % block] + (['-DTHOROUGH'] if tier == 'thorough' else [])


def source(D):
    return ['-I', os.path.join(D.REPO, 'include'), os.path.join(D.VERIF, 'harness', 'c23.cpp')]


def target_digests(name, tier, space, first, last, block, build_dir, D):
    """[(is constant, digest)] or None, compiler output"""
    ll = os.path.join(build_dir, 'c31.%s.%d.%d.%d.ll' % (name, space, first, block))
    rc, out = D.sh(CL + find(name) + part(tier, space, first, last, block) + headers(build_dir) + source(D) + ['-o', ll], timeout=3600)
    if rc:
        return None, out
    m = re.search(r'rows\w* = .*?constant \[(\d+) x i64\] (?:\[(.*?)\]|zeroinitializer)', open(ll).read())
    os.unlink(ll)
    if not m:
        return None, 'no rows in the object'
    n = int(m.group(1)) // 2
    v = [int(x.split()[1]) & (2 ** 64 - 1) for x in m.group(2).split(',')] if m.group(2) else [0] * (2 * n)
    return list(zip([bool(x) for x in v[:n]], v[n:])), out


def host_digests(tier, space, first, last, block, build_dir, D):
    exe = os.path.join(build_dir, 'c31.host.%d.%d.%d' % (space, first, block))
    rc, out = D.sh(HOST + part(tier, space, first, last, block) + source(D) + ['-o', exe], timeout=3600)
    if rc:
        return None, out
    rc, out = D.sh([exe], timeout=900)
    os.unlink(exe)
    if rc:
        return None, 'exit %d ' % rc + out[-500:]
    rows = [l.split(' ', 2) for l in out.splitlines()]
    return [(int(r[0]), int(r[1]), r[2] if len(r) > 2 else '') for r in rows], out


def compiler_works(name, build_dir, D):
    src = os.path.join(build_dir, 'plain-%s-%d.cpp' % (name, threading.get_ident()))
    open(src, 'w').write('#include <string>\n#include <sstream>\n#include <locale>\n#include <cstdio>\nint main() { return int(std::string().size()); }\n')
    return D.sh(CL + find(name) + headers(build_dir) + [src, '-o', src + '.ll'])[0] == 0


def violation(res, name, tier, space, index, kind, text):
    res.violations.append({'harness': 'custom:c31', 'config': name, 'defines': [], 'opt': None, 'tag': '', 'tier': tier, 'space': space, 'space_name': SPACES[space], 'index': index, 'kind': kind, 'shard': '', 'text': text})


def first_error(out):
    m = re.search(r'^(?!.*internal compiler error).*\berror: .*$', out, re.M)
    return m.group(0)[:500] if m and 'internal compiler error' not in out else None


def compare(name, tier, space, index, build_dir, D):
    """one case alone: text of the difference, or None"""
    t, out = target_digests(name, tier, space, index, index + 1, 1, build_dir, D)
    h, hout = host_digests(tier, space, index, index + 1, 1, build_dir, D)
    if t is None or h is None:
        return None
    if not t[0][0]:
        return '%s[%d] %s: not a constant expression for this target' % (SPACES[space], index, h[0][2])
    if t[0][1] != h[0][0]:
        return '%s[%d] %s: this target and the host differ' % (SPACES[space], index, h[0][2])
    return None


def run(pid, tier, res, build_dir, D):
    exe = os.path.join(build_dir, 'c31.sizes')
    rc, out = D.sh(['g++-13', '-std=c++20', '-w', '-fconstexpr-ops-limit=2147483647', '-fconstexpr-loop-limit=2147483647', '-DSIZES', '-DPART=0'] + (['-DTHOROUGH'] if tier == 'thorough' else []) + source(D) + ['-o', exe], timeout=900)
    if rc:
        e = first_error(out)
        if e and compiler_works('powerpc', build_dir, D):
            violation(res, 'powerpc', tier, 0, 0, 'compile', 'the cases do not compile: ' + e)
        else:
            res.infra.append('c31 does not compile: ' + out[-2000:])
        return
    sizes = [int(x) for x in D.sh([exe])[1].split()]
    headers(build_dir)
    todo = [(n.lstrip('*'), s) for n, f, s, w in TARGETS if tier == 'thorough' or not n.startswith('*')]
    chunks = {}
    for s in sorted(set(sum([s for n, s in todo], []))):
        blocks = -(-sizes[s] // BLOCK)
        chunks[s] = [(b, min(b + CHUNK[tier][s], blocks)) for b in range(0, blocks, CHUNK[tier][s])]
    cost = {6: 9, 5: 5, 7: 4, 9: 3}
    order = sorted([(s, a, b) for s in chunks for a, b in chunks[s]], key=lambda j: -cost.get(j[0], 1))
    lock = threading.Lock()
    host, total, reported = {}, {}, set()

    def on_host(job):
        s, a, b = job
        h, out = host_digests(tier, s, a, b, BLOCK, build_dir, D)
        with lock:
            host[job] = h
            if h is None and ('host', s) not in reported:
                reported.add(('host', s))
                e = first_error(out)
                if e or out.startswith('exit '):
                    violation(res, 'host', tier, s, a * BLOCK, 'compile', '%s on the host: %s' % (SPACES[s], e or out))
                else:
                    res.infra.append('c31 host %s: %s' % (SPACES[s], out[-1500:]))

    def on_target(job):
        name, (s, a, b) = job
        t0 = time.time()
        if host[(s, a, b)] is None:
            return
        t, out = target_digests(name, tier, s, a, b, BLOCK, build_dir, D)
        if t is None:
            e = first_error(out)
            with lock:
                if e and compiler_works(name, build_dir, D):
                    if (name, s, 'compile') not in reported:
                        reported.add((name, s, 'compile'))
                        violation(res, name, tier, s, a * BLOCK, 'compile', '%s %s: does not compile: %s' % (name, SPACES[s], e))
                else:
                    res.infra.append('c31 %s %s: %s' % (name, SPACES[s], out[-1500:]))
            return
        h = host[(s, a, b)]
        bad = [a + i for i in range(b - a) if not t[i][0] or t[i][1] != h[i][0]]
        with lock:
            c = total.setdefault((name, s), [0, 0, 0, 0.0])
            c[0] += min(b * BLOCK, sizes[s]) - a * BLOCK
            c[1] += b - a
            c[2] += sum(r[1] for r in h)
            if bad and (name, s) in reported:
                bad = []
            if bad:
                reported.add((name, s))
        if bad:
            where, text = bad[0] * BLOCK, None
            for i in range(bad[0] * BLOCK, min((bad[0] + 1) * BLOCK, sizes[s])):
                text = compare(name, tier, s, i, build_dir, D)
                if text:
                    where = i
                    break
            with lock:
                violation(res, name, tier, s, where, 'check', '%s %s' % (name, text or '%s block %d differs as a whole' % (SPACES[s], bad[0])))
        total[(name, s)][3] += time.time() - t0

    with ThreadPoolExecutor(max_workers=D.JOBS) as ex:
        for f in [ex.submit(on_host, j) for j in order]:
            f.result()
        for f in [ex.submit(on_target, (n, j)) for j in order for n, s in todo if j[0] in s]:
            f.result()
    def on_endian(i):
        try:
            text = endian(i, build_dir, D)
        except RuntimeError as e:
            with lock:
                res.infra.append(str(e))
            return
        if text:
            with lock:
                violation(res, ENDIAN_CASES[i][0][0], tier, 13, i, 'endian', text)

    with ThreadPoolExecutor(max_workers=D.JOBS) as ex:
        for f in [ex.submit(on_endian, i) for i in range(len(ENDIAN_CASES))]:
            f.result()
    res.runs.append(('c31.endian', {'harness': 'c31_endian', 'config': 'all'}, {'tier': tier, 'complete': True, 'spaces': [{
        'name': SPACES[13], 'what': 'the byte order of 12 targets found in each of the four documented ways before std::endian, in three standards', 'cases': len(ENDIAN_CASES), 'states': len(ENDIAN_CASES), 'steps': len(ENDIAN_CASES), 'samples': []}]}, 0))
    for (name, s), c in sorted(total.items()):
        if os.environ.get('VERIF_VERBOSE'):
            print(name, SPACES[s], c, flush=True)
        res.runs.append(('c31.' + name, {'harness': 'c23', 'config': name}, {'tier': tier, 'complete': True, 'spaces': [{
            'name': SPACES[s], 'what': 'every observation evaluated for the target, against the host', 'cases': c[0], 'states': c[0], 'steps': c[2], 'samples': []}]}, 0))
    res.extra['samples'] = ['%s %s: %d cases, %d blocks, %d observations agree with the host' % (k[0], SPACES[k[1]], c[0], c[1], c[2]) for k, c in sorted(total.items())][:8]


def replay(v, build_dir, D):
    s, i = v['space'], v['index']
    headers(build_dir)
    if v['kind'] == 'endian':
        text = endian(i, build_dir, D)
    elif v['kind'] == 'compile':
        if v['config'] == 'host':
            t, out = host_digests(v['tier'], s, i // BLOCK, i // BLOCK + 1, BLOCK, build_dir, D)
        else:
            t, out = target_digests(v['config'], v['tier'], s, i // BLOCK, i // BLOCK + 1, BLOCK, build_dir, D)
        text = first_error(out) or out[-300:] if t is None else None
    else:
        text = compare(v['config'], v['tier'], s, i, build_dir, D)
    if text:
        print(text)
        print('VIOLATION property=C31 replay=%s' % v.get('how', ''))
    return 1 if text else 0
