#!/usr/bin/env python3
"""Decides one property: builds /repo's working tree under the controlled scheduler, explores every
scenario of the property within its bounds, writes evidence/<id>.json.

usage: check.py <property> [quick|thorough]      exit 0 held / 1 violated / 2 the check itself failed
       check.py --build-only
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plan import PLAN  # noqa: E402

CXX = 'g++'
BASE = ['-std=c++20', '-DNDEBUG', '-U_FORTIFY_SOURCE', '-fno-pie', '-fconcepts', '-w', '-g1', '-I' + REPO + '/include']
INSTR = BASE + ['-O1', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0']
PLAIN = BASE + ['-O3', '-D_FORTIFY_SOURCE=3']  # as the installed compiler does by itself when it optimises
ENGINE = ['-std=c++20', '-O2', '-g1', '-fno-pie', '-fno-builtin', '-w']


def fail(msg):
    print('CHECK-ERROR: ' + msg)
    sys.exit(2)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_digest(root, pats):
    files = sorted(f for pat in pats for f in glob.glob(os.path.join(root, pat), recursive=True) if os.path.isfile(f))
    return digest(*[x for f in files for x in (os.path.relpath(f, root), rd(f))])


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    p = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if p.returncode:
        return '%s\n%s' % (src, p.stderr[-4000:])
    os.replace(tmp, obj)
    return None


def build(harnesses):
    """Returns {harness: binary}.  Objects are keyed by the content of everything they depend on."""
    os.makedirs(BUILD, exist_ok=True)
    hdr = tree_digest(REPO, ['include/**/*.h', 'include/**/*.hpp', 'include/**/*.inl'])
    eng = tree_digest(HERE, ['engine/*', 'harness/*.h'])
    jobs, lib = [], []
    for src in sorted(glob.glob(REPO + '/source/**/*.cpp', recursive=True)):
        text = rd(src)
        # The hand-written context switch and signal entry depend on their own frame layout: never instrumented.
        raw = re.search(rb'__attribute__\s*\(\(\s*(naked|optimize)', text) is not None
        flags = PLAIN if raw else INSTR
        obj = os.path.join(BUILD, 'l-%s-%s.o' % (os.path.basename(src)[:-4], digest(text, hdr, flags, src)))
        jobs.append((src, obj, flags))
        lib.append(obj)
    rt = os.path.join(BUILD, 'rt-%s.o' % digest(eng))
    ex = os.path.join(BUILD, 'explore-%s.o' % digest(eng))
    jobs += [(HERE + '/engine/rt.cpp', rt, ENGINE), (HERE + '/engine/explore.cpp', ex, ENGINE)]
    hobj = {}
    for h in harnesses:
        src = HERE + '/harness/%s.cpp' % h
        hobj[h] = os.path.join(BUILD, 'h-%s-%s.o' % (h, digest(rd(src), hdr, eng, INSTR)))
        jobs.append((src, hobj[h], INSTR))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as tp:
        errs = [e for e in tp.map(compile_one, jobs) if e]
    if errs:
        fail('does not compile: ' + errs[0])
    bins = {}
    for h in harnesses:
        b = os.path.join(BUILD, 'bin-%s-%s' % (h, digest(hobj[h], rt, ex, *lib)))
        if not os.path.exists(b):
            tmp = b + '.%d.tmp' % os.getpid()
            p = subprocess.run([CXX, '-no-pie', '-rdynamic', '-o', tmp, rt, hobj[h]] + lib + [ex, '-ldl', '-lpthread'], capture_output=True, text=True)
            if p.returncode:
                fail('does not link: ' + p.stderr[-4000:])
            os.replace(tmp, b)
        bins[h] = b
    return bins


def symbolise(binary, text):
    def one(m):
        a = int(m.group(1), 16) - 1
        o = subprocess.run(['addr2line', '-Cfie', binary, '%x' % a], capture_output=True, text=True).stdout.splitlines()
        fr = []
        for i in range(0, len(o) - 1, 2):
            if o[i] == '??' or ('/usr/' in o[i + 1] and i + 2 < len(o)):
                continue
            fr.append('%s (%s)' % (re.sub(r'\(.*', '', o[i]), o[i + 1].split(' ')[0].split('/')[-1]))
        return 'pc=' + m.group(1) + (' [' + ' < '.join(fr[:3]) + ']' if fr else '')
    return re.sub(r'pc=([0-9a-f]+)', one, text)


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) scenario=(\S+) kind=(\S+) match=/(.*)/ :: (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(scenario=m.group(2), kind=m.group(3), match=m.group(4), text=m.group(5)))
    return out


def main():
    args = sys.argv[1:]
    if args == ['--build-only']:
        build(sorted({s['harness'] for p in PLAN.values() for s in p}))
        return 0
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    scns = PLAN[prop]
    known = known_findings(prop)
    bins = build(sorted({s['harness'] for s in scns}))
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    results, violations, known_hit = [], [], []
    for s in scns:
        if tier not in s['tiers']:
            continue
        bound, secs = s[tier]
        b = bins[s['harness']]
        sched = os.path.join(edir, 'replay', '%s-%s.sched' % (prop, s['scenario']))
        if os.path.exists(sched):
            os.remove(sched)
        out = os.path.join(BUILD, 'out-%s-%s-%d.json' % (prop, s['scenario'], os.getpid()))
        p = subprocess.run([b, '--scenario', s['scenario'], '--bound', str(bound), '--time', str(secs), '--out', out, '--schedule', sched]
                           + (['--keep-going'] if any(k['scenario'] == s['scenario'] for k in known) else []),
                           capture_output=True, text=True)
        try:
            r = json.load(open(out))
            os.remove(out)
        except Exception as e:  # noqa: BLE001
            fail('%s: no result (exit %d): %s %s' % (s['scenario'], p.returncode, p.stderr[-1000:], e))
        if r['error']:
            fail('%s: %s' % (s['scenario'], r['error']))
        results.append(r)
        for v in r['violations']:
            text = symbolise(b, v['msg'])
            k = next((k for k in known if k['scenario'] == s['scenario'] and k['kind'] == v['kind'] and re.search(k['match'], text)), None)
            if k:
                if k['text'] not in known_hit:
                    known_hit.append(k['text'])
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
                continue
            violations.append((s, v, text))
            with open(sched, 'a') as f:
                f.write('# threads: %s\n' % symbolise(b, v['dump']))
                f.write('# replay: python3 tools/replay.py %s\n' % sched)
            print('%s: %s: %s' % (s['scenario'], v['kind'], text))
            print('VIOLATION property=%s replay=%s' % (prop, sched))
        print('%-28s bound %d%s: %d executions, %d states, %d transitions, %d outcomes, %.1f s' % (
            s['scenario'], bound, '' if r['complete'] else ' (done to %d)' % r['level_done'], r['execs'], r['states'], r['transitions'], r['outcomes'], r['wall']), flush=True)
        if violations and tier == 'quick':
            break
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': sum(r['states'] for r in results),
            'transitions': sum(r['transitions'] for r in results),
            'traces_validated_against_impl': sum(r['execs'] for r in results),
            'exhaustive': all(r['complete'] for r in results) and not violations,
            'rule': 'every execution runs the real library; a schedule is a list of deviations (choice point, thread or value) from a deterministic scheduler; states are distinct happens-before prefixes',
            'scenarios': [{k: r[k] for k in ('scenario', 'bound', 'complete', 'level_done', 'execs', 'pruned', 'states', 'transitions', 'outcomes', 'max_points', 'max_choices', 'threads', 'conflict_sites', 'racy_sites', 'phase1', 'restarts', 'levels', 'wall')} for r in results],
            'samples': [{'scenario': r['scenario'], 'schedule': r['sample']} for r in results] + [{'scenario': s['scenario'], 'violation': t, 'schedule': v['schedule']} for s, v, t in violations],
            'known_findings_seen': known_hit,
        },
        'assumptions': [
            'sequentially consistent memory (x86 context, races are found as unsynchronised accesses and made scheduling points)',
            'schedules up to the stated number of deviations from the default scheduler; completeness per level is in scenarios[].level_done',
            'virtual time: timers and sleeps fire in any order allowed by their deadlines',
        ],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
