#!/usr/bin/env python3
"""Runs the monitoring harness of one property against /repo's working tree.

usage: check.py <property> [--replay FILE] [--suite S --case N] [--seed N] [--keep]
Environment: VERIF_SEED, VERIF_TIER=quick|thorough, VERIF_REPO (default /repo).
Exit: 0 held on everything observed, 1 violated (VIOLATION line), 2 error/inconclusive.
"""
import concurrent.futures as cf
import fnmatch, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = '/usr/bin/g++'
BASE = ['-std=c++20', '-g1', '-fno-omit-frame-pointer', '-w', '-I' + REPO + '/include', '-I/usr/include/eigen3',
        '-I' + HERE + '/harness']
# an error in a source file, as opposed to a failing tool (memory, disk, internal error)
COMPILE_ERR = re.compile(r'[^\n]*:\d+:\d+: (?:fatal )?error:[^\n]*')
BUILDS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute',
             '-fno-sanitize-recover=all'],  # Eigen copies zero elements from null
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
}
RUNENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:exitcode=23:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=8192',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=23',
    'LSAN_OPTIONS': 'exitcode=23',
    'TSAN_OPTIONS': 'exitcode=23:halt_on_error=1:second_deadlock_stack=1',
}


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    pats = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                pats.append((m.group(2), m.group(3)))
    return pats


def compile_one(args):
    src, obj, flags = args
    cmd = [CXX] + BASE + flags + ['-c', src, '-o', obj]
    r = None
    for attempt in range(2):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            return src, 0, ''
        if 'error:' in r.stderr and 'internal compiler error' not in r.stderr and 'Killed' not in r.stderr:
            break
    return src, r.returncode, r.stderr


def crash_kind(err):
    for rx in (r'ERROR: AddressSanitizer: ([\w-]+)', r'WARNING: ThreadSanitizer: ([\w -]+)', r'runtime error: ([^\n]{0,90})',
               r"Assertion `([^\n]{0,120})' failed", r'ERROR: (LeakSanitizer)', r'(terminate called[^\n]*)',
               r'==\d+== ((?:Invalid|Conditional|Use of uninit|Process terminating)[^\n]*)'):
        m = re.search(rx, err)
        if m:
            return re.sub(r'0x[0-9a-f]+|\d{4,}', '#', m.group(1)).strip()[:120]
    return 'abnormal-exit'


def main():
    prop = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1')))
    t0 = time.time()
    cfg = CHECKS[prop]
    bdir = os.path.join(HERE, 'build', prop)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    if '--replay' in opt:
        rp = json.load(open(opt['--replay']))
        seed, tier = rp['seed'], rp['tier']
        if rp.get('suite'):
            opt['--suite'], opt['--case'] = rp['suite'], str(rp['case'])

    viols = []  # (key, detail, suite, case)
    # ---- build -------------------------------------------------------------------------
    jobs, exes = [], []
    for run in cfg['runs']:
        flags = BUILDS[run['build']] + run.get('flags', [])
        objs = []
        for src in run['srcs'] + ['vh_main.cpp']:
            # 'file.cpp@3' compiles part 3 of file.cpp
            name, _, part = src.partition('@')
            o = os.path.join(bdir, run['name'] + '_' + src + '.o')
            jobs.append((os.path.join(HERE, 'harness', name), o, flags + (['-DVH_PART=' + part] if part else [])))
            objs.append(o)
        exes.append((run, objs, os.path.join(bdir, run['name'])))
    control_ok, compile_errs = True, []
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(compile_one, jobs):
            if rc:
                if src.endswith('vh_main.cpp'):
                    control_ok = False
                compile_errs.append((src, err))
    bad_exes = set()
    if compile_errs:
        if not control_ok or not all(COMPILE_ERR.search(e) for _, e in compile_errs):
            log('ERROR: cannot compile the harness\n', compile_errs[0][1][:3000])
            return 2
        for src, err in compile_errs:
            # The control unit (independent of the library) compiled: a program that uses the library the
            # documented way no longer does.
            m = COMPILE_ERR.search(err)
            viols.append(('does-not-compile/' + os.path.basename(src), m.group(0)[:600], None, None))
            for run, objs, exe in exes:
                if any(os.path.join(HERE, 'harness', s.partition('@')[0]) == src for s in run['srcs']):
                    bad_exes.add(run['name'])
    for run, objs, exe in exes:
        if run['name'] in bad_exes:
            continue
        r = subprocess.run([CXX] + BASE + BUILDS[run['build']] + objs + ['-o', exe, '-pthread'] + run.get('ldflags', []),
                           capture_output=True, text=True)
        if r.returncode:
            log('ERROR: link failed', r.stderr[:2000])
            return 2
    t_build = time.time() - t0

    # ---- run ---------------------------------------------------------------------------
    tasks = []
    for run, objs, exe in exes:
        if run['name'] in bad_exes:
            continue
        if run.get('tier') and tier not in run['tier']:
            continue
        if run.get('wrapper') and not shutil.which(run['wrapper'][0]):
            log('note: %s is not available, run %s skipped' % (run['wrapper'][0], run['name']))
            continue
        ns = 1 if '--case' in opt else run.get('shards', 8)
        for s in range(ns):
            out = os.path.join(bdir, '%s.%d.json' % (run['name'], s))
            cmd = list(run.get('wrapper', [])) + [exe, '--out', out, '--seed', str(seed), '--tier', tier, '--shard', '%d/%d' % (s, ns)]
            if run.get('scale'):
                cmd += ['--scale', str(run['scale'][tier] if isinstance(run['scale'], dict) else run['scale'])]
            if run.get('crash_only'):
                cmd += ['--crash-only', '1']
            if '--suite' in opt:
                cmd += ['--suite', opt['--suite']]
            if '--case' in opt:
                cmd += ['--case', opt['--case']]
            tasks.append((run, cmd, out))

    budget = 260 if tier == 'quick' else 860 - (time.time() - t0)

    def execute(t):
        run, cmd, out = t
        env = dict(os.environ)
        env.update(RUNENV)
        env.update(run.get('env', {}))
        try:
            with open(out + '.stdout', 'wb') as so:
                r = subprocess.run(cmd, stdout=so, stderr=subprocess.PIPE, timeout=max(30, budget * 0.8), env=env, cwd=bdir)
            os.unlink(out + '.stdout')
            return r.returncode, r.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return 'timeout', ''

    tot = {'evaluations': 0, 'inconclusive': 0}
    events, per, reasons, distinct, samples = {}, {}, {}, set(), []
    errors = []
    with cf.ThreadPoolExecutor(8) as ex:
        for (run, cmd, out), (rc, err) in zip(tasks, ex.map(execute, tasks)):
            label = ''
            try:
                raw = open(out + '.label', 'rb').read()
                label = raw[:100].split(b'\0')[0].decode('utf8', 'replace')
                sub = raw[100:].split(b'\0')[0].decode('utf8', 'replace')
            except OSError:
                sub = ''
            suite, _, case = label.partition('#')
            if rc == 'timeout':
                if cfg.get('hang_is_violation'):
                    # re-run that one case alone before calling it a hang
                    c2 = cmd + ['--suite', suite, '--case', case or '0']
                    try:
                        subprocess.run(c2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=45, cwd=bdir, env=dict(os.environ, **RUNENV))
                        errors.append('watchdog at %s (not reproduced)' % label)
                    except subprocess.TimeoutExpired:
                        viols.append(('hang/' + suite, 'case %s does not return; %s' % (label, sub), suite, case))
                else:
                    errors.append('watchdog at ' + label)
            if os.path.exists(out + '.viol'):
                for line in open(out + '.viol', errors='replace'):
                    try:
                        v = json.loads(line)
                    except ValueError:
                        continue
                    viols.append((v['suite'] + '/' + v['key'], v['detail'], v['suite'], v['case']))
            if os.path.exists(out):
                j = json.load(open(out))
                tot['evaluations'] += j['evaluations']
                tot['inconclusive'] += j['inconclusive']
                distinct.update(j['distinct'])
                for d, k in ((events, 'events'), (per, 'per_suite'), (reasons, 'inconclusive_reasons')):
                    for a, b in j[k].items():
                        d[a] = d.get(a, 0) + b
                if len(samples) < 12:
                    samples += j['samples']
            if rc in (0, 1) and os.path.exists(out):
                continue
            if rc == 'timeout':
                continue
            if rc in (-9,) or rc == 3:
                errors.append('shard ended with %s at %s' % (rc, label))
                continue
            kind = crash_kind(err)
            if label == 'exit':
                suite = 'exit'
            viols.append(('crash/%s/%s' % (suite, kind), 'exit %s at case %s (%s)\n%s' % (rc, label, sub, err[:4000]),
                          suite if suite != 'exit' else None, case or None))

    # ---- verdict -----------------------------------------------------------------------
    kf = known_findings(prop)
    new, seen_known = {}, {}
    for key, detail, suite, case in viols:
        k = key.replace(' ', '_')
        hit = [d for p_, d in kf if fnmatch.fnmatchcase(k, p_)]
        if hit:
            seen_known.setdefault(hit[0], k)
        else:
            new.setdefault(k, (detail, suite, case))
    if cfg.get('post'):
        for msg in cfg['post'](events, tier):
            errors.append(msg)
    need = cfg.get('min_events', {})
    if '--suite' not in opt:
        for k, n in need.items():
            if events.get(k, 0) < n:
                errors.append('only %d events of kind %s observed (need %d)' % (events.get(k, 0), k, n))
        if tot['evaluations'] == 0:
            errors.append('nothing was observed')
        if tot['inconclusive'] > max(20, tot['evaluations']):
            errors.append('%d inconclusive cases: %s' % (tot['inconclusive'], reasons))
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': cfg.get('level', 'exploration'),
          'coverage': {'evaluations': tot['evaluations'], 'distinct_nontrivial': len(distinct), 'rule': cfg['rule'],
                       'samples': samples[:12], 'events': events, 'cases_per_suite': per,
                       'inconclusive': tot['inconclusive'], 'inconclusive_reasons': reasons,
                       'builds': [r['name'] + ':' + r['build'] for r in cfg['runs']], 'build_s': round(t_build, 1)},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if '--suite' not in opt:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    log('%s tier=%s seed=%d: %d cases, %d distinct, events %s, %d inconclusive, build %.0fs, total %.0fs' % (
        prop, tier, seed, tot['evaluations'], len(distinct), json.dumps(events), tot['inconclusive'], t_build, time.time() - t0))
    for d, k in seen_known.items():
        log('KNOWN-FINDING: property=%s %s (observed as %s)' % (prop, d, k))
    rc = 0
    if new:
        rdir = os.path.join(HERE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, (k, (detail, suite, case)) in enumerate(sorted(new.items())):
            if i >= 12:
                log('... and %d more kinds' % (len(new) - i))
                break
            path = os.path.join(rdir, '%s-%d.json' % (prop, i))
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'suite': suite, 'case': int(case) if case not in (None, '') else None,
                       'key': k, 'detail': detail, 'how': 'python3 check.py %s --replay %s' % (prop, path)}, open(path, 'w'), indent=1)
            log('VIOLATION property=%s replay=%s' % (prop, path))
            log('  key=%s case=%s\n  %s' % (k, case, detail[:700]))
        rc = 1
    elif errors:
        log('ERROR (inconclusive): ' + '; '.join(errors))
        rc = 2
    if '--keep' not in sys.argv:
        shutil.rmtree(bdir, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
