#!/usr/bin/env python3
"""Runs the check of one property.

  check.py <id> [--tier quick|thorough]      explore; exit 0 held, 1 violated (VIOLATION line), 2 no answer
  check.py <id> --replay replays/<file>      re-execute one recorded counterexample

Every run compiles the harnesses against the headers in /repo/include as they are now.
"""
import json, os, re, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from plan import PLAN, CONFIGS  # noqa: E402

JOBS = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4


def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def build(pid, harness, config, build_dir, defines=(), opt=None, tag=None):
    c = CONFIGS[config]
    exe = os.path.join(build_dir, '%s.%s' % (harness, config) + ('.' + tag if tag else ''))
    cmd = [c['cc']] + c['flags'] + ([opt] if opt else []) + list(defines) + ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(VERIF, 'mc'),
           os.path.join(VERIF, 'harness', harness + '.cpp'), '-o', exe] + c.get('libs', [])
    rc, out = sh(cmd, timeout=600)
    return exe, rc, out


def compiler_works(config, build_dir):
    c = CONFIGS[config]
    src = os.path.join(build_dir, 'compiler-test.cpp')
    open(src, 'w').write('#include <string>\n#include <vector>\nint main(int c, char** v) { std::vector<std::string> a(v, v + c); return int(a.size()) - c; }\n')
    rc, _ = sh([c['cc']] + c['flags'] + [src, '-o', src + '.out'], timeout=300)
    return rc == 0 and sh([src + '.out'])[0] == 0


CRASHES = {-4: 'SIGILL', -6: 'SIGABRT', -7: 'SIGBUS', -8: 'SIGFPE', -11: 'SIGSEGV'}


def start_crash(exe):
    """The harness without any case: what remains is the static initialisation of the library (and of the harness)."""
    rc, text = sh([exe, '--only', '-', '--out', exe + '.start.json'], timeout=300)
    return CRASHES.get(rc), text


class Result:
    def __init__(self):
        self.runs, self.violations, self.infra, self.extra = [], [], [], {}


def known_findings(pid):
    r = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == pid:
                r.append((re.compile(m.group(2)), m.group(3)))
    return r


def run_harness(pid, spec, exe, tier, build_dir):
    out = os.path.join(build_dir, os.path.basename(exe) + '.json')
    t = spec.get('tier') or tier
    env = dict(os.environ)
    env.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1')
    env.setdefault('UBSAN_OPTIONS', 'print_stacktrace=0:halt_on_error=1:abort_on_error=1')
    cmd = [exe, '--tier', t, '--out', out, '--jobs', str(JOBS), '--table', str(spec.get('table', 24))]
    if spec.get('only'):
        cmd += ['--only', spec['only']]
    if os.path.exists(out):
        os.remove(out)
    t0 = time.time()
    rc, text = sh(cmd, env=env)
    wall = time.time() - t0
    try:
        data = json.load(open(out))
    except Exception as e:
        return None, 'harness %s gave no result (exit %d): %s %s' % (os.path.basename(exe), rc, e, text[-500:]), wall
    return (rc, data), None, wall


def explore(pid, tier):
    plan = PLAN[pid]
    build_dir = os.path.join(VERIF, 'build', pid)
    os.makedirs(build_dir, exist_ok=True)
    res = Result()
    if 'custom' in plan:
        import importlib
        importlib.import_module(plan['custom']).run(pid, tier, res, build_dir, sys.modules[__name__])
    runs = [r for r in plan.get('runs', []) if tier == 'thorough' or not r.get('thorough_only')]
    with ThreadPoolExecutor(max_workers=JOBS) as ex:
        built = list(ex.map(lambda r: build(pid, r['harness'], r['config'], build_dir, r.get('defines', ()), r.get('opt'), r.get('tag')), runs))
    for spec, (exe, rc, out) in zip(runs, built):
        name = os.path.basename(exe)
        if rc != 0:
            # an operation the harness uses that no longer compiles in this configuration, though the compiler works
            first = re.search(r'^(?!.*internal compiler error).*\berror: .*$', out, re.M)
            if first and 'internal compiler error' not in out and 'out of memory' not in out.lower() and compiler_works(spec['config'], build_dir):
                res.violations.append({'harness': spec['harness'], 'config': spec['config'], 'defines': list(spec.get('defines', ())), 'opt': spec.get('opt'), 'tag': spec.get('tag'), 'tier': tier,
                                       'space': -1, 'space_name': 'interface', 'index': 0, 'kind': 'compile', 'shard': '', 'text': 'an operation of the property no longer compiles: ' + first.group(0)[-700:]})
            else:
                res.infra.append('%s does not compile:\n%s' % (name, out[-3000:]))
            continue
        r, err, wall = run_harness(pid, spec, exe, tier, build_dir)
        if err:
            crash, text = start_crash(exe)
            if crash:
                res.violations.append({'harness': spec['harness'], 'config': spec['config'], 'defines': list(spec.get('defines', ())), 'opt': spec.get('opt'), 'tag': spec.get('tag'), 'tier': tier,
                                       'space': -1, 'space_name': 'start', 'index': 0, 'kind': 'start', 'shard': '', 'text': 'a program using the library ends with %s before main: %s' % (crash, text[:300])})
            else:
                res.infra.append(err)
            continue
        rc, data = r
        if os.environ.get('VERIF_VERBOSE'):
            print('%-24s %6.1fs %s' % (name, wall, ' '.join('%s=%d/%d/%d' % (s['name'], s['cases'], s['states'], s['steps']) for s in data['spaces'])), flush=True)
        res.runs.append((name, spec, data, wall))
        if data['infra'] or (rc not in (0, 1)):
            res.infra.append('%s: exit %d %s %s' % (name, rc, data['infra'], data['notes']))
        for v in data['violations']:
            res.violations.append({'harness': spec['harness'], 'config': spec['config'], 'defines': list(spec.get('defines', ())), 'opt': spec.get('opt'), 'tag': spec.get('tag'), 'tier': data['tier'], 'space': v['space'],
                                   'space_name': v['name'], 'index': v['index'], 'kind': v['kind'], 'shard': v.get('shard', ''), 'text': v['text']})
    return res


def main():
    args = sys.argv[1:]
    if not args or args[0] not in PLAN:
        print('usage: check.py <property> [--tier T] [--replay FILE]; properties: ' + ' '.join(sorted(PLAN)))
        return 2
    pid = args[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    replay = None
    i = 1
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]; i += 2
        elif args[i] == '--replay':
            replay = args[i + 1]; i += 2
        else:
            print('unknown argument', args[i]); return 2
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if replay:
        return do_replay(pid, replay)
    t0 = time.time()
    res = explore(pid, tier)
    kf = known_findings(pid)
    new, known = [], {}
    for v in res.violations:
        for rx, what in kf:
            if rx.search(v['text']):
                known[what] = known.get(what, 0) + 1
                break
        else:
            new.append(v)
    for what in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if new:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        shown = {}
        for v in new:
            shown[(v['harness'], v['config'], v['space'])] = n = shown.get((v['harness'], v['config'], v['space']), 0) + 1
            if n > 3:
                continue
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rd, '%s-%s.json' % (pid, h))
            v['property'] = pid
            v['how'] = 'python3 check.py %s --replay %s' % (pid, os.path.relpath(path, VERIF))
            json.dump(v, open(path, 'w'), indent=1)
            print('  %s %s %s[%s] %s' % (v['config'], v['kind'], v['space_name'], v['index'], v['text'][:400]))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, VERIF)))
    for e in res.infra:
        print('ERROR ' + e)
    write_evidence(pid, tier, res, new, time.time() - t0)
    if new:
        return 1
    return 2 if res.infra else 0


def write_evidence(pid, tier, res, new, wall):
    plan = PLAN[pid]
    spaces, samples = [], []
    states = trans = traces = 0
    for name, spec, data, w in res.runs:
        for s in data['spaces']:
            if not s['cases']:
                continue
            spaces.append({'run': name, 'bounds': data['tier'], 'space': s['name'], 'what': s['what'], 'executions': s['cases'], 'distinct_states': s['states'], 'observations_compared': s['steps']})
            states += s['states']; trans += s['steps']; traces += s['cases']
            for x in s['samples']:
                if len(samples) < 12 and sum(1 for y in samples if y.startswith(s['name'] + ': ')) < 2:
                    samples.append('%s: %s' % (s['name'], x))
    cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': traces, 'samples': samples,
           'exhaustive': bool(res.runs or res.extra) and not new and not res.infra and all(d['complete'] for _, _, d, _ in res.runs),
           'meaning': 'states: distinct abstract states/inputs reached; transitions: observations of the real implementation compared with the oracle; traces: executions of the real implementation',
           'spaces': spaces}
    for k, v in res.extra.items():
        if k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov[k] += v
        elif k == 'samples':
            cov['samples'] += v
        else:
            cov[k] = v
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': plan.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))


def do_replay(pid, path):
    v = json.load(open(path))
    build_dir = os.path.join(VERIF, 'build', pid)
    os.makedirs(build_dir, exist_ok=True)
    if v['harness'].startswith('custom:'):
        import importlib
        return importlib.import_module(v['harness'][7:]).replay(v, build_dir, sys.modules[__name__])
    exe, rc, out = build(pid, v['harness'], v['config'], build_dir, v.get('defines', ()), v.get('opt'), v.get('tag'))
    if v['kind'] == 'compile':
        print(out[-3000:])
        if rc:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1 if rc else 0
    if rc:
        print(out); return 2
    if v['kind'] == 'start':
        crash, out = start_crash(exe)
        print(crash or 'no crash', out[-1000:])
        if crash:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1 if crash else 0
    cmd = [exe, '--tier', v['tier']] + (['--shard', v['shard']] if v['shard'] else ['--replay', '%d:%d' % (v['space'], v['index'])])
    rc, out = sh(cmd, timeout=900)
    print(out)
    if rc:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
