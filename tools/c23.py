"""C23: harness/c23.cpp evaluated block by block by the compilers' constant evaluators and by the program itself."""
import os, re, threading, time
from concurrent.futures import ThreadPoolExecutor

GL = ['-fconstexpr-ops-limit=2147483647', '-fconstexpr-loop-limit=2147483647', '-fconstexpr-depth=100000', '-ftemplate-depth=100000', '-O0', '-w']
CL = ['-fconstexpr-steps=2147483647', '-fconstexpr-depth=100000', '-ftemplate-depth=100000', '-O0', '-w']
G, C = ['g++-13'] + GL, ['clang++-18'] + CL
NOEXC = ['-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS']
# name, command, spaces, acceptance. *: thorough only
ALL = list(range(13))
ARRAYS = list(range(12))  # no string views
TEXTS = [0, 1, 2]
CONFIGS = [
    ('gcc20', G + ['-std=c++20'], ALL, TEXTS),
    ('clang20', C + ['-std=c++20'], ALL, TEXTS),
    ('gcc14', G + ['-std=c++14'], [0, 3, 4, 5, 10], [1]),
    ('clang17', C + ['-std=c++17'], [2, 8, 11], []),
    ('gcc20-noexc', G + ['-std=c++20'] + NOEXC, [], [0, 2]),
    ('*gcc14-rest', G + ['-std=c++14'], [1, 2, 6, 7, 8, 9, 11], [0, 2]),
    ('*clang14', C + ['-std=c++14'], ARRAYS, TEXTS),
    ('*gcc17', G + ['-std=c++17'], ALL, TEXTS),
    ('*clang20-noexc', C + ['-std=c++20'] + NOEXC, ALL, TEXTS),
    ('*gcc20-no-scope', G + ['-std=c++20', '-DIPADDRESS_NO_IPV6_SCOPE'], [1, 2, 4, 6, 10], [1, 2]),
    ('*clang23', C + ['-std=c++23'], ALL, TEXTS),
    ('*gcc23-no-spaceship', G + ['-std=c++23', '-DIPADDRESS_NO_SPACESHIP_OPERATOR'], [3, 4, 7, 8, 10], []),
]
SPACES = ['v4_texts', 'v6_texts', 'network_texts', 'v4_values', 'v6_values', 'v4_networks', 'v6_networks', 'network_pairs', 'integers', 'integer_texts', 'small_types', 'scope_texts', 'encodings']
CHUNK = {'quick': [80, 80, 80, 13, 9, 7, 2, 14, 60, 43, 54, 110, 60], 'thorough': [80, 80, 60, 20, 10, 10, 4, 18, 80, 80, 60, 80, 60]}  # blocks per translation unit
ACCEPT = 72
BLOCK = 8


def find(name):
    for n, cc, s, a in CONFIGS:
        if n.lstrip('*') == name:
            return cc
    raise KeyError(name)


def program(config, tier, space, first, last, accept, block, build_dir, D):
    exe = os.path.join(build_dir, 'c23.%s.%d.%d%s%s' % (config, space, first, '.a' if accept else '', '' if block == BLOCK else '.1'))
    cmd = find(config) + ['-DPART=%d' % space, '-DFROM=%d' % first, '-DTO=%d' % last, '-DBLOCK=%d' % block] + (['-DACCEPT'] if accept else []) + (['-DTHOROUGH'] if tier == 'thorough' else [])
    rc, out = D.sh(cmd + ['-I', os.path.join(D.REPO, 'include'), os.path.join(D.VERIF, 'harness', 'c23.cpp'), '-o', exe], timeout=3600)
    if rc:
        return rc, out, None
    rc, out = D.sh([exe], timeout=900)
    try:
        os.unlink(exe)
    except OSError:
        pass
    return rc, out, True


def parse(out):
    bad = [(int(m.group(1)), m.group(2)) for m in re.finditer(r'^X (\d+) (.*)$', out, re.M)]
    m = re.search(r'^N (\d+) (\d+) (\d+) (\d+) (\d+) (\d+)$', out, re.M)
    return bad, [int(x) for x in m.groups()] if m else None


def compiler_works(config, build_dir, D):
    src = os.path.join(build_dir, 'plain-%s-%d.cpp' % (config, threading.get_ident()))
    open(src, 'w').write('#include <string>\nint main() { return int(std::string().size()); }\n')
    return D.sh(find(config) + [src, '-o', src + '.out'])[0] == 0


def violation(res, config, tier, space, index, kind, text, accept):
    res.violations.append({'harness': 'custom:c23', 'config': config, 'defines': [], 'opt': None, 'tag': 'accept' if accept else '', 'tier': tier, 'space': space, 'space_name': SPACES[space], 'index': index, 'kind': kind, 'shard': '', 'text': text})


def run(pid, tier, res, build_dir, D):
    exe = os.path.join(build_dir, 'c23.sizes')
    rc, out = D.sh(G + ['-std=c++20', '-DSIZES', '-DPART=0'] + (['-DTHOROUGH'] if tier == 'thorough' else []) + ['-I', os.path.join(D.REPO, 'include'), os.path.join(D.VERIF, 'harness', 'c23.cpp'), '-o', exe], timeout=900)
    if rc:
        m = re.search(r'^(?!.*internal compiler error).*\berror: .*$', out, re.M)
        if m and compiler_works('gcc20', build_dir, D):
            violation(res, 'gcc20', tier, 0, 0, 'compile', 'the cases do not compile: %s' % m.group(0)[:500], False)
        else:
            res.infra.append('c23 does not compile: ' + out[-2000:])
        return
    sizes = [int(x) for x in D.sh([exe])[1].split()]
    jobs = []
    for name, cc, spaces, accept in CONFIGS:
        if name.startswith('*') and tier != 'thorough':
            continue
        name = name.lstrip('*')
        for s in spaces:
            blocks = -(-sizes[s] // BLOCK)
            n = CHUNK[tier][s]
            jobs += [(name, s, b, min(b + n, blocks), False) for b in range(0, blocks, n)]
        for s in accept:
            blocks = -(-sizes[s] // BLOCK)
            jobs += [(name, s, b, min(b + ACCEPT, blocks), True) for b in range(0, blocks, ACCEPT)]
    cost = {6: 9, 5: 5, 7: 4, 9: 3}
    jobs.sort(key=lambda j: -cost.get(j[1], 1))
    reported = set()
    lock = threading.Lock()
    total, spent = {}, {}

    def one(job):
        name, s, a, b, accept = job
        t0 = time.time()
        rc, out, ran = program(name, tier, s, a, b, accept, BLOCK, build_dir, D)
        if ran is None:
            m = re.search(r'^(?!.*internal compiler error).*\berror: .*$', out, re.M)
            with lock:
                if m and 'internal compiler error' not in out and compiler_works(name, build_dir, D):
                    if (name, s, 'compile') not in reported:
                        reported.add((name, s, 'compile'))
                        violation(res, name, tier, s, a * BLOCK, 'compile', '%s %s: does not compile: %s' % (name, SPACES[s], m.group(0)[:500]), accept)
                else:
                    res.infra.append('c23 %s %s: %s' % (name, SPACES[s], out[-1500:]))
            return
        spent[(name, s, accept)] = spent.get((name, s, accept), 0) + time.time() - t0
        bad, n = parse(out)
        if n is None:
            with lock:
                violation(res, name, tier, s, a * BLOCK, 'crash', '%s %s[%d..]: exit %d %s' % (name, SPACES[s], a * BLOCK, rc, out[-300:]), accept)
            return
        with lock:
            t = total.setdefault((name, s, accept), [0] * 6)
            for i in range(6):
                t[i] += n[i]
            todo = []
            for i, text in bad:
                key = (name, s, text.split(':')[0] if accept else 'block')
                if key in reported:
                    continue
                reported.add(key)
                todo.append((i, text))
        for i, text in todo:
            if not accept:  # which case of the block
                rc, out, ran = program(name, tier, s, i, i + BLOCK, False, 1, build_dir, D)
                alone = parse(out)[0] if ran else []
                if alone:
                    i, text = alone[0]
            with lock:
                violation(res, name, tier, s, i, 'check', '%s %s' % (name, text), accept)

    with ThreadPoolExecutor(max_workers=D.JOBS) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
    for (name, s, accept), t in sorted(total.items()):
        if os.environ.get('VERIF_VERBOSE'):
            print(name, SPACES[s], 'acceptance' if accept else '', t, '%.0f s' % spent[(name, s, accept)], flush=True)
        what = 'acceptance by the throwing parser, the literal and parse<text>() in constant expressions, against run time' if accept else 'every observation in a constant expression against run time'
        res.runs.append(('c23.' + name, {'harness': 'c23', 'config': name}, {'tier': tier, 'complete': True, 'spaces': [{
            'name': SPACES[s] + ('_accepted' if accept else ''), 'what': what, 'cases': t[0], 'states': t[0], 'steps': t[4] if accept else t[3], 'samples': []}]}, 0))
    res.extra['translation_units'] = len(jobs)
    res.extra['samples'] = ['%s %s: %d cases, %d blocks constant, %d observations' % (k[0], SPACES[k[1]], t[0], t[1], t[3]) for k, t in sorted(total.items()) if not k[2]][:6] + \
                           ['%s %s: %d texts, %d of %d parsers and literals accept in a constant expression' % (k[0], SPACES[k[1]], t[0], t[5], t[4]) for k, t in sorted(total.items()) if k[2]][:6]


def replay(v, build_dir, D):
    s, i = v['space'], v['index']
    accept = v['tag'] == 'accept'
    rc, out, ran = program(v['config'], v['tier'], s, i, i + 1, accept, 1, build_dir, D)
    print(out[-2000:])
    hit = ran is None if v['kind'] == 'compile' else (parse(out)[1] is None or bool(parse(out)[0]))
    if hit:
        print('VIOLATION property=C23 replay=%s' % v.get('how', ''))
    return 1 if hit else 0
