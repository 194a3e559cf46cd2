#!/usr/bin/env python3
"""Builds the checker of one property from /repo's working tree, explores it exhaustively and writes the evidence.

usage: run_check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--keep] [--replay 'scenario@trace'] [--filter S]
exit status: 0 held, 1 violated (prints VIOLATION property=.. replay=..), 2 error of the check itself.
"""
import argparse, atexit, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=None)
ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
ap.add_argument('--replay')
ap.add_argument('--filter')
ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
ap.add_argument('--seconds', type=int)
ap.add_argument('--max', type=int)
ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
args = ap.parse_args()
tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
if tier not in ('quick', 'thorough'):
    tier = 'quick'
prop = args.property
cfg = registry.CHECKS[prop]
REPO = os.path.abspath(args.repo)
start = time.time()

BASE = ['-std=c++20', '-g1', '-DBOOST_ASIO_NO_DEPRECATED', '-Wno-deprecated', '-I' + REPO + '/include', '-I' + HERE + '/lib']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-O1']
TSAN = ['-fsanitize=thread', '-O1']
BUILD = os.path.join(HERE, 'build')


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + '/include', REPO + '/src', HERE + '/lib'):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


TREE = tree_hash()


def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


OBJ_GUARD = threading.Lock()
OBJ_LOCKS = {}


def compile_one(job):
    """job: (source, flags) -> object path or raises"""
    src, flags = job
    h = hashlib.sha256()
    h.update(json.dumps([TREE, REPO, src, flags]).encode())
    with open(src, 'rb') as f:
        h.update(f.read())
    obj = os.path.join(BUILD, 'obj', os.path.basename(src).split('.')[0] + '-' + h.hexdigest()[:20] + '.o')
    with OBJ_GUARD:
        lock = OBJ_LOCKS.setdefault(obj, threading.Lock())
    with lock:
      if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('cannot compile %s\n%s' % (src, r.stdout[-6000:]))
        os.rename(tmp, obj)
    return obj


def lib_sources(io, extra=()):
    s = ['channel', 'error', 'main', 'this_thread', 'thread', 'detail/exception', 'detail/util']
    if io:
        # the acceptor is not part of the baseline build either
        s += ['io/' + f[:-4] for f in sorted(os.listdir(REPO + '/src/io')) if f.endswith('.cpp') and f != 'acceptor.cpp' and f != 'ssl.cpp']
    s += extra
    return [REPO + '/src/%s.cpp' % x for x in s if os.path.exists(REPO + '/src/%s.cpp' % x)]


def build(unit):
    """unit: dict(source=, io=bool, flags=[..], san=bool)"""
    kind = unit.get('san', True)
    san = TSAN if kind == 'thread' else SAN if kind else ['-O1']
    flags = BASE + san + unit.get('flags', [])
    jobs = [(HERE + '/lib/mc.cpp', ['-std=c++20', '-O1', '-g1', '-I' + HERE + '/lib'])]
    if unit.get('sched'):
        jobs.append((HERE + '/lib/sched.cpp', ['-std=c++20', '-O1', '-g1', '-I' + HERE + '/lib']))
    jobs += [(os.path.join(HERE, 'checks', x), flags) for x in unit['source'].split()]
    jobs += [(s, flags) for s in lib_sources(unit.get('io', False), unit.get('sources', []))]
    with concurrent.futures.ThreadPoolExecutor(max(2, min(args.jobs, len(jobs)))) as ex:
        objs = list(ex.map(compile_one, jobs))
    h = hashlib.sha256(json.dumps(objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'bin', unit['source'].split()[0].split('.')[0] + '-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        link = ['-fsanitize=thread'] if kind == 'thread' else ['-fsanitize=address,undefined'] if kind else []
        r = subprocess.run(['g++'] + link + objs + unit.get('ldflags', []) + ['-lpthread', '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('cannot link %s\n%s' % (unit['source'], r.stdout[-4000:]))
        os.rename(tmp, exe)
    return exe


def prune():
    """drop stale build products"""
    for sub, keep in (('obj', 400), ('bin', 60)):
        d = os.path.join(BUILD, sub)
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: os.path.getmtime(p), reverse=True)
        for f in fs[keep:]:
            try:
                os.unlink(f)
            except OSError:
                pass


def load_known():
    path = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                d = {}
                rest = line[len('known: '):]
                # known: property=<id> scenario=<name> | <message substring> | <explanation>
                head, msg, why = [x.strip() for x in rest.split(' | ', 2)]
                d['property'] = head.split()[0].split('=', 1)[1]
                d['scenario'] = head.split('scenario=', 1)[1].strip()
                d['message'], d['why'] = msg, why
                res.append(d)
    return res


SCRATCH = tempfile.mkdtemp(prefix='verif-check-')
atexit.register(shutil.rmtree, SCRATCH, True)


def main():
    for d in (BUILD + '/obj', BUILD + '/bin', args.evidence):
        os.makedirs(d, exist_ok=True)
    try:
        units = cfg['units']
        with concurrent.futures.ThreadPoolExecutor(max(1, len(units))) as ex:
            exes = list(ex.map(build, units))
    except RuntimeError as e:
        die(str(e))
    build_s = time.time() - start
    prune()
    env = dict(os.environ)
    env['VERIF_SCRATCH'] = SCRATCH
    for k in list(env):
        if k.startswith(('ASAN_', 'UBSAN_', 'TSAN_')):
            del env[k]
    env['ASAN_OPTIONS'] = 'detect_leaks=0:symbolize=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    if args.replay:
        env['ASAN_OPTIONS'] = 'detect_leaks=0'
        env['TSAN_OPTIONS'] = 'symbolize=1'
        for e in exes:
            subprocess.run([e, '--property', prop, '--replay', args.replay] + (['--thorough'] if tier == 'thorough' else []), env=env)
        return 0
    known = [k for k in load_known() if k['property'] == prop]
    known_file = os.path.join(BUILD, 'known-%s-%d' % (prop, os.getpid()))
    with open(known_file, 'w') as f:
        for k in known:
            f.write('%s\t%s\n' % (k['scenario'], k['message']))
    budget = args.seconds or (420 if tier == 'quick' else 3 * 3600)
    results = []
    rc = 0
    for exe, unit in zip(exes, units):
        out = os.path.join(BUILD, 'out-%s-%d.json' % (prop, os.getpid()))
        cmd = [exe, '--property', prop, '--jobs', str(args.jobs), '--seconds', str(max(30, int(budget - (time.time() - start - build_s)))), '--out', out, '--known', known_file]
        if tier == 'thorough':
            cmd.append('--thorough')
        if args.filter:
            cmd += ['--filter', args.filter]
        if args.max:
            cmd += ['--max', str(args.max)]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            sys.stdout.write(p.stdout.decode(errors='replace')[-3000:])
            sys.stdout.write(p.stderr.decode(errors='replace')[-3000:])
            die('the explorer of %s ended with %d' % (unit['source'], p.returncode))
        results.append(json.load(open(out)))
        results[-1]['exe'] = exe
        os.unlink(out)
    os.unlink(known_file)
    tot = lambda k: sum(r[k] for r in results)
    viol = [(r, v) for r in results for v in r['violations']]
    unlisted = [(r, v) for r, v in viol if v['known'] < 0]
    # a violation stands by itself: the execution that shows it was run and its choices are recorded
    if not unlisted and not args.filter and (tot('executions') == 0 or tot('scenarios') == 0):
        die('no executions explored')
    if not unlisted and tot('diverged'):
        die('%d executions diverged while replaying a prefix' % tot('diverged'))
    samples = []
    for r in results:
        for ps in r['per_scenario']:
            for o in ps['top_outcomes'][:2]:
                samples.append({'scenario': ps['name'], 'choices': o[2], 'observed': o[0], 'executions_with_this_outcome': o[1]})
    samples = samples[::max(1, len(samples) // 24)][:24]
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': tot('states'),
            'transitions': tot('transitions'),
            'traces_validated_against_impl': tot('executions'),
            'distinct_outcomes': tot('distinct_outcomes'),
            'choices_taken': tot('choices'),
            'longest_execution_choices': max(r['longest_execution_choices'] for r in results),
            'scenarios': tot('scenarios'),
            'exhaustive': all(r['exhaustive'] for r in results),
            'crashes': tot('crashes'),
            'truncated': tot('truncated_tasks'),
            'bounds': cfg.get('bounds', ''),
            'per_scenario': [{k: ps[k] for k in ('name', 'executions', 'states', 'outcomes')} for r in results for ps in r['per_scenario']][:400],
            'samples': samples,
            'build_s': round(build_s, 1),
        },
        'assumptions': cfg.get('assumptions', registry.ASSUMPTIONS),
        'wall_s': round(time.time() - start, 2),
        'violations': len(unlisted),
    }
    path = os.path.join(args.evidence, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(path + '.tmp', path)
    print('%s: %d scenarios, %d executions, %d transitions, %d states, %d distinct outcomes, exhaustive=%s, %.1fs (build %.1fs)' % (
        prop, tot('scenarios'), tot('executions'), tot('transitions'), tot('states'), tot('distinct_outcomes'), ev['coverage']['exhaustive'], time.time() - start, build_s))
    seen = set()
    for r, v in viol:
        if v['known'] >= 0 and v['known'] not in seen:
            seen.add(v['known'])
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, v['scenario'], v['message']))
    if unlisted:
        rdir = os.path.join(args.evidence, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, (r, v) in enumerate(unlisted[:8]):
            rp = os.path.join(rdir, '%s-%d.txt' % (prop, i))
            with open(rp, 'w') as f:
                f.write('property: %s\nscenario: %s\nchoices: %s\nmessage: %s\nreplay with: python3 %s/run_check.py %s --tier %s --replay "%s@%s"\n\n%s\n' % (
                    prop, v['scenario'], v['trace'], v['message'], HERE, prop, tier, v['scenario'], v['trace'], v['log'].replace('\\n', '\n')))
            print('  %s [%s]: %s' % (v['scenario'], v['trace'], v['message']))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException as e:  # never let an error of the check look like a verdict
    print('ERROR: %r' % (e,))
    sys.exit(2)
