"""C28: the transcript of harness/c28.cpp in every configuration, compared block by block with the reference
configuration; public headers compiled alone; two translation units linked together."""
import os, re, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

G, C = 'g++-13', 'clang++-18'
W = ['-w', '-pthread']
NI = ['-Dalways_inline=unused']
NOEXC = ['-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS']
# name: compiler, flags. The first is the reference. *: thorough only.
CONFIGS = [
    ('gcc20', G, ['-std=c++20', '-O2'] + NI),
    ('gcc11', G, ['-std=c++11', '-O2'] + NI),
    ('gcc11-O0', G, ['-std=c++11', '-O0'] + NI),
    ('gcc14', G, ['-std=c++14', '-O2'] + NI),
    ('gcc17-O3', G, ['-std=c++17', '-O3'] + NI),
    ('gcc23', G, ['-std=c++23', '-O1'] + NI),
    ('gcc20-inline-O0', G, ['-std=c++20', '-O0']),
    ('gcc20-no-spaceship', G, ['-std=c++20', '-O2', '-DIPADDRESS_NO_SPACESHIP_OPERATOR'] + NI),
    ('gcc20-no-overload-std', G, ['-std=c++20', '-O2', '-DIPADDRESS_NO_OVERLOAD_STD'] + NI),
    ('gcc11-no-overload-std', G, ['-std=c++11', '-O2', '-DIPADDRESS_NO_OVERLOAD_STD'] + NI),
    ('gcc20-no-scope', G, ['-std=c++20', '-O2', '-DIPADDRESS_NO_IPV6_SCOPE'] + NI),
    ('gcc11-no-scope', G, ['-std=c++11', '-O2', '-DIPADDRESS_NO_IPV6_SCOPE'] + NI),
    ('gcc23-noexc', G, ['-std=c++23', '-O2'] + NOEXC + NI),
    ('gcc11-noexc', G, ['-std=c++11', '-O2'] + NOEXC + NI),
    ('gcc17-pattern', G, ['-std=c++17', '-O1', '-ftrivial-auto-var-init=pattern'] + NI),
    ('gcc20-char-is-utf8', G, ['-std=c++20', '-O2', '-DIPADDRESS_CHAR_IS_UTF8'] + NI),
    ('gcc20-unsigned-char', G, ['-std=c++20', '-O1', '-funsigned-char'] + NI),
    # nothing the library does depends on the representation of integers in memory, so this is what a big-endian host computes
    ('gcc17-big-endian', G, ['-std=c++17', '-O1', '-DIPADDRESS_ENDIAN=1'] + NI),
    # a global locale that writes numbers in its own way
    ('gcc17-locale', G, ['-std=c++17', '-O1', '-DMC_LOCALE'] + NI),
    ('gcc11-before-main', G, ['-std=c++11', '-O1', '-DMC_EARLY'] + NI),
    ('clang11', C, ['-std=c++11', '-O2'] + NI),
    ('clang14-O0', C, ['-std=c++14', '-O0'] + NI),
    ('clang17', C, ['-std=c++17', '-O2'] + NI),
    ('clang20', C, ['-std=c++20', '-O2'] + NI),
    ('clang20-pattern', C, ['-std=c++20', '-O1', '-ftrivial-auto-var-init=pattern'] + NI),
    ('clang23-O3', C, ['-std=c++23', '-O3'] + NI),
    ('clang20-noexc-no-scope', C, ['-std=c++20', '-O2', '-DIPADDRESS_NO_IPV6_SCOPE'] + NOEXC + NI),
    ('clang11-before-main', C, ['-std=c++11', '-O1', '-DMC_EARLY'] + NI),
    ('clang20-module', C, ['-std=c++20', '-O1', '-DMC_MODULE'] + NI),
    ('*gcc11-inline-O0', G, ['-std=c++11', '-O0']),
    ('*gcc20-inline-O2', G, ['-std=c++20', '-O2']),
    ('*clang20-inline-O0', C, ['-std=c++20', '-O0']),
    ('*gcc20-Os', G, ['-std=c++20', '-Os'] + NI),
    ('*gcc14-noexc-no-scope', G, ['-std=c++14', '-O2', '-DIPADDRESS_NO_IPV6_SCOPE'] + NOEXC + NI),
    ('*clang17-no-overload-std', C, ['-std=c++17', '-O2', '-DIPADDRESS_NO_OVERLOAD_STD'] + NI),
    ('*gcc20-native', G, ['-std=c++20', '-O3', '-march=native'] + NI),
    ('*clang14-zero', C, ['-std=c++14', '-O1', '-ftrivial-auto-var-init=zero'] + NI),
]
HEADERS = 'ipaddress ipv4-address ipv6-address ip-any-address ipv4-network ipv6-network ip-any-network uint128 fixed-string optional byte-array errors hash ip-address-base ip-network-base ip-address-iterator ip-network-iterator ip-any-iterator ip-networks endian unicode config base-v4 base-v6'.split()
ALONE = [('gcc11', G, ['-std=c++11']), ('gcc20', G, ['-std=c++20']), ('clang11', C, ['-std=c++11']), ('clang20', C, ['-std=c++20']), ('gcc20-noexc', G, ['-std=c++20'] + NOEXC)]
LINK = ['gcc20', 'gcc11', 'gcc14', 'gcc17-O3', 'clang11', 'clang17', 'clang20', 'gcc11-no-overload-std', 'gcc20-no-scope', 'gcc11-O0', 'gcc23']


def find(name):
    for n, cc, f in CONFIGS:
        if n.lstrip('*') == name:
            return cc, f
    raise KeyError(name)


def compile_one(name, build_dir, D):
    cc, flags = find(name)
    exe = os.path.join(build_dir, 'c28.' + name)
    inc = ['-I', os.path.join(D.REPO, 'include'), '-I', os.path.join(D.VERIF, 'mc')]
    src = os.path.join(D.VERIF, 'harness', 'c28.cpp')
    if name.endswith('-module'):
        pcm = exe + '.pcm'
        base = [f for f in flags if f != '-DMC_MODULE']
        rc, out = D.sh([cc] + base + W + inc[:2] + ['-x', 'c++-module', os.path.join(D.REPO, 'src', 'ipaddress.ixx'), '--precompile', '-o', pcm], timeout=600)
        if rc:
            return exe, rc, out
        return (exe,) + D.sh([cc] + flags + W + inc[2:] + ['-fmodule-file=ipaddress=' + pcm, src, pcm, '-o', exe], timeout=600)
    return (exe,) + D.sh([cc] + flags + W + inc + [src, '-o', exe], timeout=600)


def is_error(out, cc, flags, build_dir, D):
    """first error of a compilation if the compiler itself is all right"""
    m = re.search(r'^(?!.*internal compiler error).*(\berror: |undefined reference|multiple definition).*$', out, re.M)
    if not m or 'internal compiler error' in out or 'out of memory' in out.lower() or 'Killed' in out:
        return None
    src = os.path.join(build_dir, 'plain-%d.cpp' % threading.get_ident())
    open(src, 'w').write('#include <string>\nint main() { return int(std::string().size()); }\n')
    ok = D.sh([cc] + [f for f in flags if f != '-DMC_MODULE'] + [src, '-o', src + '.out'])[0] == 0
    return m.group(0) if ok else None


def digest(exe, tier, jobs, D):
    env = dict(os.environ, C28_DIGEST=exe + '.digest')
    env['MALLOC_PERTURB_'] = '165' if 'pattern' in exe else '0'
    rc, out = D.sh([exe, '--tier', tier, '--out', exe + '.json', '--jobs', str(jobs), '--table', '16'], env=env)
    import json
    try:
        data = json.load(open(exe + '.json'))
    except Exception as e:
        return None, None, '%s gave no result (exit %d): %s' % (os.path.basename(exe), rc, out[-500:])
    d = {}
    for l in open(exe + '.digest'):
        k, n, h = l.split()
        d[k] = (n, h)
    return d, data, None


def cases(exe, tier, block, only, D):
    """transcripts of one block"""
    env = dict(os.environ, C28_BLOCK=block)
    env['MALLOC_PERTURB_'] = '165' if 'pattern' in exe else '0'
    rc, out = D.sh([exe, '--tier', tier, '--out', exe + '.b.json', '--jobs', str(D.JOBS), '--table', '16', '--only', only], env=env)
    r = {}
    for l in out.split('\n'):
        m = re.match(r'(\d+) (.*)$', l)
        if m:
            r[int(m.group(1))] = m.group(2)
    return r


def difference(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    s = max(0, i - 60)
    return '...%s instead of ...%s' % (b[s:i + 60], a[s:i + 60])


def violation(res, config, tier, space, name, index, kind, text):
    res.violations.append({'harness': 'custom:c28', 'config': config, 'defines': [], 'opt': None, 'tag': None, 'tier': tier, 'space': space, 'space_name': name, 'index': index, 'kind': kind, 'shard': '', 'text': text})


def judge_compile(res, name, cc, flags, rc, out, tier, build_dir, D, what):
    e = is_error(out, cc, flags, build_dir, D)
    if e:
        violation(res, name, tier, -1, 'interface', 0, 'compile', '%s does not compile: %s' % (what, e[:500]))
    else:
        res.infra.append('%s in %s does not compile:\n%s' % (what, name, out[-2000:]))


def header_alone(h, config, build_dir, D):
    name, cc, flags = config
    src = os.path.join(build_dir, 'alone-%s-%s.cpp' % (h, name))
    open(src, 'w').write('#include <ipaddress/%s.hpp>\n#include <ipaddress/%s.hpp>\nint main() { }\n' % (h, h))
    return D.sh([cc] + flags + W + ['-fsyntax-only', '-I', os.path.join(D.REPO, 'include'), src], timeout=300)


def link_two(name, build_dir, D):
    cc, flags = find(name)
    exe = os.path.join(build_dir, 'link.' + name)
    src = os.path.join(D.VERIF, 'harness', 'c28_link.cpp')
    for tu in '12':
        rc, out = D.sh([cc] + flags + W + ['-c', '-DTU=' + tu, '-I', os.path.join(D.REPO, 'include'), src, '-o', exe + tu + '.o'], timeout=300)
        if rc:
            return rc, out, 'compile'
    rc, out = D.sh([cc] + flags + W + [exe + '1.o', exe + '2.o', '-o', exe], timeout=300)
    if rc:
        return rc, out, 'link'
    rc, out = D.sh([exe], timeout=60)
    return rc, out, 'run'


def run(pid, tier, res, build_dir, D):
    names = [n.lstrip('*') for n, _, _ in CONFIGS if tier == 'thorough' or not n.startswith('*')]
    with ThreadPoolExecutor(max_workers=D.JOBS) as ex:
        built = list(ex.map(lambda n: compile_one(n, build_dir, D), names))
        heads = [(h, c) for c in ALONE for h in HEADERS if os.path.exists(os.path.join(D.REPO, 'include', 'ipaddress', h + '.hpp'))]
        alone = list(ex.map(lambda hc: header_alone(hc[0], hc[1], build_dir, D), heads))
        linked = list(ex.map(lambda n: link_two(n, build_dir, D), LINK))
    for (h, c), (rc, out) in zip(heads, alone):
        if rc:
            judge_compile(res, c[0], c[1], c[2], rc, out, tier, build_dir, D, 'header %s.hpp on its own' % h)
    for n, (rc, out, stage) in zip(LINK, linked):
        if rc and stage == 'run':
            violation(res, n, tier, -1, 'link', 0, 'check', 'two translation units linked together: exit %d %s' % (rc, out[:300]))
        elif rc:
            judge_compile(res, n, find(n)[0], find(n)[1], rc, out, tier, build_dir, D, 'two translation units (%s)' % stage)
    ref = None
    compared = blocks = 0
    for n, (exe, rc, out) in zip(names, built):
        if rc:
            judge_compile(res, n, find(n)[0], find(n)[1], rc, out, tier, build_dir, D, 'the transcript')
            continue
        d, data, err = digest(exe, tier, D.JOBS, D)
        if err:
            res.infra.append(err)
            continue
        if data['infra'] or data['notes']:
            res.infra.append('%s: %s %s' % (n, data['infra'], data['notes']))
        for v in data['violations']:
            violation(res, n, tier, v['space'], v['name'], v['index'], v['kind'], v['text'])
        spec = {'harness': 'c28', 'config': n}
        res.runs.append(('c28.' + n, spec, data, 0))
        if os.environ.get('VERIF_VERBOSE'):
            print(n, len(d), 'blocks', sum(int(x[0]) for x in d.values()), 'cases', flush=True)
        if data['violations']:
            continue
        if ref is None:
            ref = (n, exe, d, data)
            continue
        bad = [k for k in d if k in ref[2] and d[k] != ref[2][k]]
        missing = [k for k in ref[2] if k not in d and not (k.startswith('12:') and 'no-scope' in n) and not (k.startswith('5:') and 'no-overload-std' in n)]
        compared += len([k for k in d if k in ref[2]])
        blocks += len(ref[2])
        if missing:
            violation(res, n, tier, int(missing[0].split(':')[0]), 'transcript', 0, 'check', 'cases of block %s were not executed' % missing[0])
        seen = set()
        for k in sorted(bad, key=lambda k: tuple(map(int, k.split(':')))):
            sp = int(k.split(':')[0])
            if sp in seen:
                continue
            seen.add(sp)
            name = data['spaces'][sp]['name']
            a, b = cases(ref[1], tier, k, name, D), cases(exe, tier, k, name, D)
            for i in sorted(a):
                if a[i] != b.get(i):
                    violation(res, n, tier, sp, name, i, 'check', '%s differs from %s: %s' % (n, ref[0], difference(a[i], b.get(i, '(nothing)'))))
                    break
            else:
                res.infra.append('%s block %s differs from %s but not reproducibly' % (n, k, ref[0]))
    res.extra['configurations'] = names
    res.extra['blocks_compared'] = compared
    res.extra['headers_compiled_alone'] = len(heads)
    res.extra['linked_configurations'] = len(LINK)


def replay(v, build_dir, D):
    n = v['config']
    if v['kind'] == 'compile' or v['space'] < 0:
        class R:
            pass
        r = D.Result()
        run('C28', v['tier'], r, build_dir, D)
        hits = [x for x in r.violations if x['config'] == n and x['kind'] == v['kind']]
        for x in hits:
            print(x['text'])
        if hits:
            print('VIOLATION property=C28 replay=' + v.get('how', ''))
        return 1 if hits else 0
    ea, ra, oa = compile_one(CONFIGS[0][0], build_dir, D)
    eb, rb, ob = compile_one(n, build_dir, D)
    if ra or rb:
        print(oa[-1500:], ob[-1500:])
        return 2
    if v['kind'] != 'check':
        rc, out = D.sh([eb, '--tier', v['tier'], '--replay', '%d:%d' % (v['space'], v['index'])], timeout=900)
        print(out)
        return 1 if rc else 0
    k = '%d:%d' % (v['space'], v['index'] // 64)
    a, b = cases(ea, v['tier'], k, v['space_name'], D), cases(eb, v['tier'], k, v['space_name'], D)
    i = v['index']
    print('%s: %s' % (CONFIGS[0][0], a.get(i)))
    print('%s: %s' % (n, b.get(i)))
    if a.get(i) != b.get(i):
        print('VIOLATION property=C28 replay=' + v.get('how', ''))
        return 1
    return 0
