#!/usr/bin/env python3
"""check.py PROPERTY [--only SUBSTR] [--keep] : decide one property of /repo's current tree with CBMC.

For every configuration of the property (configs.py) the harness and the real sources are compiled by goto-cc from
/repo's working tree, CBMC unrolls them and decides every assertion for all values of the symbolic inputs within the
bounds.  A failed assertion yields a concrete input, which is replayed natively (gcc, ASan+UBSan, same harness, same
real sources); only what reproduces is reported as VIOLATION.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time, concurrent.futures, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
import configs

T0 = time.time()
GCC = 'gcc'
INC = [VERIF + '/model', REPO + '/lib/include', REPO + '/proxy/common/include', REPO + '/proxy/http_coap/include']


def log(*a):
    print(*a, flush=True)


def limit(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)
        os.setpgid(0, 0)
    return f


def run(cmd, timeout, mem=6, cwd=None, out=None):
    """returns (rc or None on timeout, stdout+stderr)"""
    f = open(out, 'wb') if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=limit(mem) if mem else (lambda: os.setpgid(0, 0)))
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        o, rc = b'', None
    if out:
        f.close()
        o = b''
    return rc, (o or b'').decode('utf-8', 'replace')


def repo_srcs(c):
    return [REPO + '/' + s for s in c.srcs]


def defs(c):
    return ['-D' + d for d in c.defs]


def model_srcs(c):
    return [VERIF + '/model/' + m for m in c.models]


def goto_cc(c, wd):
    gb = wd + '/' + c.name + '.gb'
    cmd = ['goto-cc', '-DVRT_CBMC', '-DVRT_WITNESS', '-o', gb, '--function', 'harness'] + defs(c) + \
        ['-I' + i for i in INC + c.inc(REPO)] + [VERIF + '/harness/' + c.harness + '.c'] + model_srcs(c) + \
        [VERIF + '/model/' + m for m in c.cbmc_models] + repo_srcs(c)
    rc, o = run(cmd, 120)
    return (gb, None) if rc == 0 else (None, o[-3000:])


def native_build(c, wd):
    exe = wd + '/' + c.name + '.native'
    cmd = [GCC, '-g', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,alignment',
           '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-fno-builtin', '-o', exe] + defs(c) + \
        ['-I' + i for i in INC + c.inc(REPO)] + [VERIF + '/harness/' + c.harness + '.c', VERIF + '/model/vrt_native.c'] + \
        model_srcs(c) + repo_srcs(c) + c.native_libs
    rc, o = run(cmd, 120, mem=None)
    return (exe, None) if rc == 0 else (None, o[-3000:])


def scalar(v):
    if 'binary' in v:
        return [int(v['binary'], 2)]
    if 'elements' in v:
        r = []
        for e in v['elements']:
            r += scalar(e['value'])
        return r
    if 'members' in v:
        r = []
        for m in v['members']:
            r += scalar(m['value'])
        return r
    return [0]


def inputs_of(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'input' and s.get('inputID') == 'vrt':
            for v in s['values']:
                vals += scalar(v)
    return vals


def native_run(exe, vals_file, fill=None):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0' + \
        ((':max_malloc_fill_size=1000000:malloc_fill_byte=%d' % fill) if fill is not None else '')
    p = subprocess.Popen([exe, vals_file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                         cwd=os.path.dirname(exe), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=20)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'hang', 'no result after 20 s (does not terminate)'
    o = o.decode('utf-8', 'replace')
    if rc == 0:
        return 'ok', o
    if rc == 77:
        return 'assume', o
    if rc == 99:
        return 'violation', o
    if rc == 98 or 'AddressSanitizer' in o or 'runtime error:' in o or rc < 0:
        return 'violation', o
    return 'odd', o + '\nexit %s' % rc


class Result:
    pass


SYM = '/opt/veriftools/pyvenv/bin/python'


def sym_build(c, wd):
    """LLVM IR of harness, models and real sources, linked; locals kept in registers where their address is not taken"""
    lls = []
    for k, src in enumerate([VERIF + '/harness/' + c.harness + '.c'] + model_srcs(c) + [VERIF + '/model/' + m for m in c.cbmc_models] + repo_srcs(c)):
        ll = '%s/%s.%d.bc' % (wd, c.name, k)
        rc, o = run(['clang', '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-w', '-DVRT_SYM', '-o', ll] + defs(c) +
                    ['-I' + i for i in INC + c.inc(REPO)] + [src], 120)
        if rc != 0:
            return None, o[-3000:]
        lls.append(ll)
    out = '%s/%s.ll' % (wd, c.name)
    rc, o = run(['llvm-link', '-o', out + '.bc'] + lls, 120)
    if rc == 0:
        rc, o = run(['opt', '-S', '-passes=internalize,globaldce,mem2reg,simplifycfg<no-switch-to-lookup>', '-internalize-public-api-list=harness', '-o', out, out + '.bc'], 120)
    for f in lls + [out + '.bc']:
        if os.path.exists(f):
            os.unlink(f)
    return (out, None) if rc == 0 else (None, o[-3000:])


def sym_decide(c, wd, deadline, R):
    """runs sym.py; returns (candidates, None) in the form CBMC's results have below, or (None, status)"""
    ll, err = sym_build(c, wd)
    if not ll:
        R.status, R.note = 'error', 'clang: ' + err
        return None
    out = ll + '.json'
    tmo = min(c.timeout, deadline - time.time())
    rc, o = run([SYM, VERIF + '/sym.py', ll, out, '--time', str(max(5, tmo - 5)), '--steps', str(c.steps)], tmo + 20, mem=c.mem)
    try:
        d = json.load(open(out))
    except Exception:
        R.status, R.note = 'inconclusive', 'sym.py rc=%s: %s' % (rc, o[-600:])
        return None
    R.queries, R.solver_s, R.symex_s, R.steps, R.clauses = d['queries'], d['solver_s'], d['wall_s'] - d['solver_s'], d['instrs'], d['paths']
    R.functions = d['functions']
    R.obligations = d['asserts'] + d['assert_queries']
    R.discharged = R.obligations - len(d['bugs'])
    R.paths = d['paths']
    return d


def is_unwind(r):
    return '.unwind.' in r['property'] or '.recursion' in r['property'] or 'unwinding assertion' in r['description']


def decide(c, wd, deadline, evid_dir, prop):
    """decide1, repeated with a larger bound for loops of the code under test that outgrow theirs (a loop that was
    rewritten, or that a change made run longer)"""
    import copy
    for k in (0, 1):
        R = decide1(c, wd, deadline, evid_dir, prop)
        if not R.overrun or deadline - time.time() < 60 + 4 * R.wall:
            break
        c = copy.copy(c)
        c.unwindset = list(c.unwindset) + ['%s:%d' % (l, max(4 * c.unwind, 12) << k) for l in R.overrun]
    return R


def decide1(c, wd, deadline, evid_dir, prop):
    """returns Result with .status in pass|violation|inconclusive|error"""
    R = Result()
    R.c = c
    R.status, R.note, R.replay, R.overrun = 'error', '', None, []
    R.obligations = R.discharged = R.steps = R.vars = R.clauses = 0
    R.solver_s = R.symex_s = 0.0
    R.functions, R.witnesses, R.witness_replayed, R.queries = [], {}, 0, 0
    t0 = time.time()
    if c.engine == 'sym':
        d = sym_decide(c, wd, deadline, R)
        R.wall = time.time() - t0
        if d is None:
            return R
        results = [{'property': 'path', 'description': b['what'], 'status': 'FAILURE', 'vals': b['values'],
                    'sourceLocation': {'file': c.harness, 'line': '0', 'function': b['function']}} for b in d['bugs']]
        results += [{'property': 'witness', 'description': 'WITNESS: ' + w, 'status': 'FAILURE', 'vals': v, 'sourceLocation': {}} for w, v in d['witness'].items()]
        if not d['complete'] and not d['bugs']:
            R.status, R.note = 'inconclusive', '%d paths; %s' % (d['paths'], '; '.join(d['reasons'])[:600])
            R.witnesses = {w: True for w in d['witness']}
            return R
        return judge(c, wd, R, results, evid_dir, prop)
    gb, err = goto_cc(c, wd)
    if not gb:
        R.status, R.note = 'error', 'goto-cc: ' + err
        R.wall = time.time() - t0
        return R
    out = wd + '/' + c.name + '.json'
    cmd = ['cbmc', gb, '--json-ui', '--trace', '--verbosity', '8', '--unwinding-assertions', '--no-malloc-may-fail',
           '--drop-unused-functions', '--unwind', str(c.unwind), '--object-bits', str(c.object_bits)]
    if c.unwindset:
        cmd += ['--unwindset', ','.join(c.unwindset)]
    if c.sat:
        cmd += ['--sat-solver', c.sat]
    cmd += c.flags
    rc, _ = run(cmd, min(c.timeout, deadline - time.time()), mem=c.mem, out=out)
    R.wall = time.time() - t0
    try:
        data = json.load(open(out, encoding='utf-8', errors='replace'))
    except Exception as e:
        R.status, R.note = 'inconclusive', ('solver time budget exhausted' if rc is None else 'cbmc rc=%s, no result' % rc)
        return R
    finally:
        try:
            os.unlink(out)
        except OSError:
            pass
    results = None
    for e in data:
        if 'result' in e:
            results = e['result']
        m = e.get('messageText', '') if isinstance(e, dict) else ''
        x = re.match(r'Runtime Solver: ([\d.e+-]+)s', m)
        if x:
            R.solver_s += float(x.group(1)); R.queries += 1
        x = re.match(r'Runtime Symex: ([\d.e+-]+)s', m)
        if x:
            R.symex_s += float(x.group(1))
        x = re.match(r'size of program expression: (\d+) steps', m)
        if x:
            R.steps = int(x.group(1))
        x = re.match(r'(\d+) variables, (\d+) clauses', m)
        if x and not R.vars:
            R.vars, R.clauses = int(x.group(1)), int(x.group(2))
    if results is None:
        msgs = [e.get('messageText', '') for e in data if isinstance(e, dict) and e.get('messageType') == 'ERROR']
        R.status, R.note = 'inconclusive', 'cbmc gave no verdict (rc=%s) %s' % (rc, ' '.join(msgs)[:500])
        return R
    return judge(c, wd, R, results, evid_dir, prop)


def vals_of(r):
    return r['vals'] if 'vals' in r else inputs_of(r['trace'])


def judge(c, wd, R, results, evid_dir, prop):
    """verdict of one configuration: counterexamples are replayed natively, witnesses must have been reached"""
    fns = set(R.functions)
    sym = c.engine == 'sym'
    cand, unw, bad = [], [], []
    for r in results:
        loc = r.get('sourceLocation', {})
        if loc.get('file', '').startswith(REPO):
            fns.add(loc.get('function', ''))
        if r['description'].startswith('WITNESS:'):
            R.witnesses.setdefault(r['description'][9:], False)
            if r['status'] == 'FAILURE':
                R.witnesses[r['description'][9:]] = True
            continue
        R.obligations += 0 if sym else 1
        if r['status'] == 'SUCCESS':
            R.discharged += 1
        elif r['status'] == 'FAILURE':
            (unw if is_unwind(r) else cand).append(r)
        else:
            bad.append(r)
    R.functions = sorted(f for f in fns if f)
    wit_traces = [(r['description'][9:], vals_of(r)) for r in results
                  if r['description'].startswith('WITNESS:') and r['status'] == 'FAILURE' and ('trace' in r or 'vals' in r)]
    exe, err = native_build(c, wd)
    if not exe:
        R.status, R.note = 'error', 'native build: ' + err
        return R

    def vfile(vals, tag):
        p = wd + '/' + c.name + '.' + tag + '.vals'
        open(p, 'w').write('\n'.join(map(str, vals)) + '\n')
        return p
    # candidate violations, harness assertions first
    cand.sort(key=lambda r: not r['description'].startswith('VP:'))
    unconfirmed = []
    for k, r in enumerate(cand[:6] + unw[:2]):
        if 'trace' not in r and 'vals' not in r:
            continue
        vals = vals_of(r)
        vf = vfile(vals, 'cex%d' % k)
        verdict, o = native_run(exe, vf)
        if verdict in ('ok', 'assume', 'odd') and not is_unwind(r):
            for fill in (0, 255):
                verdict, o = native_run(exe, vf, fill)
                if verdict in ('violation', 'hang'):
                    break
        if verdict in ('violation', 'hang'):
            rp = os.path.join(evid_dir, 'replays', '%s-%s' % (prop, c.name))
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp)
            shutil.copy(vf, rp + '/values.txt')
            loc = r.get('sourceLocation', {})
            open(rp + '/report.txt', 'w').write(
                'property %s, configuration %s\nfailed assertion: %s (%s:%s %s)\nnative replay: %s\n\n%s\n' %
                (prop, c.name, r['description'], loc.get('file'), loc.get('line'), loc.get('function'), verdict, o[-6000:]))
            open(rp + '/replay.sh', 'w').write('#!/bin/sh\n# rebuilds the harness natively against /repo and feeds it the counterexample\ncd %s && exec python3 check.py %s --replay %s %s/values.txt\n' % (VERIF, prop, c.name, rp))
            os.chmod(rp + '/replay.sh', 0o755)
            R.status, R.replay = 'violation', rp + '/report.txt'
            first = [l for l in o.splitlines() if 'REPLAY-VIOLATION' in l or 'ERROR: AddressSanitizer' in l or 'runtime error' in l]
            R.note = '%s [%s:%s]; native replay: %s' % (r['description'], os.path.basename(loc.get('file', '?')), loc.get('line'), first[0].strip()[:200] if first else verdict)
            return R
        unconfirmed.append('%s (%s:%s): native replay %s' % (r['description'], os.path.basename(r.get('sourceLocation', {}).get('file', '?')), r.get('sourceLocation', {}).get('line'), verdict))
    if cand:
        R.status, R.note = 'inconclusive', 'counterexample not reproduced natively: ' + '; '.join(unconfirmed)[:1500]
        return R
    if unw:
        R.overrun = sorted(set(re.sub(r'\.unwind\.', '.', r['property']) for r in unw))
        R.status, R.note = 'inconclusive', 'unwinding bound exceeded: ' + '; '.join(sorted(set(r['property'] for r in unw)))[:500]
        return R
    if bad:
        R.status, R.note = 'inconclusive', '%d assertions undecided' % len(bad)
        return R
    miss = [w for w, hit in R.witnesses.items() if not hit]
    if miss or not R.witnesses:
        R.status, R.note = 'inconclusive', 'vacuous: witness not reachable: %s' % miss
        return R
    for k, (w, vals) in enumerate(wit_traces):
        verdict, o = native_run(exe, vfile(vals, 'wit%d' % k))
        if verdict == 'ok' and 'WITNESS: ' + w in o:
            R.witness_replayed += 1
        else:
            R.note += 'witness "%s" not reproduced natively (%s); ' % (w, verdict)
            if os.environ.get('VERIF_DEBUG'):
                R.note += o[-800:]
    R.status = 'pass'
    return R


def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    evid = VERIF + '/evidence'
    os.makedirs(evid + '/replays', exist_ok=True)
    P = configs.PROPS[prop]
    cs = [c for c in P.configs if (tier == 'thorough' or c.tier == 'quick') and (not only or only in c.name)]
    wd = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    if '--replay' in sys.argv:
        i = sys.argv.index('--replay')
        c = [c for c in P.configs if c.name == sys.argv[i + 1]][0]
        exe, err = native_build(c, wd)
        if not exe:
            log(err); return 2
        v, o = native_run(exe, os.path.abspath(sys.argv[i + 2]))
        log(o); log('replay verdict:', v)
        shutil.rmtree(wd)
        return 1 if v in ('violation', 'hang') else 0
    budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '36000'))
    deadline = T0 + budget
    cs.sort(key=lambda c: -c.cost)
    res = []
    lock = threading.Lock()
    stop = threading.Event()

    def one(c):
        if stop.is_set():
            return None
        if time.time() > deadline - 5:
            R = Result(); R.c = c; R.status, R.note, R.wall = 'inconclusive', 'time budget exhausted before start', 0
            R.obligations = R.discharged = R.steps = R.vars = R.clauses = R.solver_s = R.symex_s = R.queries = R.witness_replayed = 0
            R.functions, R.witnesses, R.replay = [], {}, None
        else:
            R = decide(c, wd, deadline, evid, prop)
        with lock:
            res.append(R)
            log('%-12s %-40s %6.1fs obligations %d/%d witnesses %d (replayed %d) %s' %
                (R.status, c.name, R.wall, R.discharged, R.obligations, sum(R.witnesses.values()), R.witness_replayed, ' '.join(R.note.split())[:400]))
            if R.status == 'violation' and '--all' not in sys.argv:
                stop.set()
        return R
    try:
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            list(ex.map(one, cs))
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            log('kept', wd)
    viol = [r for r in res if r.status == 'violation']
    inc = [r for r in res if r.status == 'inconclusive']
    err = [r for r in res if r.status == 'error']
    funcs = sorted(set(f for r in res for f in r.functions))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2),
        'violations': len(viol),
        'coverage': {
            'explanation': 'bounded symbolic execution of the real sources (goto-cc + CBMC, SAT back end); every obligation is decided for all symbolic input values within the stated bounds',
            'states': sum(r.steps for r in res), 'transitions': sum(r.clauses for r in res),
            'states_meaning': 'SSA steps of the unrolled programs', 'transitions_meaning': 'CNF clauses handed to the solver',
            'traces_validated_against_impl': sum(r.witness_replayed for r in res),
            'obligations': sum(r.obligations for r in res), 'discharged': sum(r.discharged for r in res),
            'solver_queries': sum(r.queries for r in res),
            'solver_time_s': round(sum(r.solver_s for r in res), 2), 'symex_time_s': round(sum(r.symex_s for r in res), 2),
            'functions_encoded': funcs,
            'inconclusive': [r.c.name + ': ' + r.note for r in inc + err],
            'samples': [{'configuration': r.c.name, 'harness': r.c.harness, 'status': r.status, 'defines': r.c.defs, 'unwind': r.c.unwind,
                         'unwindset': r.c.unwindset, 'bounds': r.c.bounds, 'obligations': r.obligations, 'discharged': r.discharged,
                         'reachability_witnesses': r.witnesses, 'solver_s': round(r.solver_s, 2), 'wall_s': round(r.wall, 1),
                         'note': r.note[:400]} for r in sorted(res, key=lambda r: r.c.name)],
        },
        'assumptions': P.assumptions,
    }
    if not only:
        json.dump(ev, open('%s/%s.json' % (evid, prop), 'w'), indent=1)
    for f in configs.known_findings(prop):
        log('KNOWN-FINDING: property=%s %s' % (prop, f))
    for r in viol:
        log('  %s: %s' % (r.c.name, r.note))
    if viol:
        log('VIOLATION property=%s replay=%s' % (prop, viol[0].replay))
        return 1
    if err and not any(r.status == 'pass' for r in res):
        log('ERROR: nothing could be decided'); return 2
    log('%s: %d configurations, %d passed, %d inconclusive, %d errors, %.0fs' %
        (prop, len(res), sum(r.status == 'pass' for r in res), len(inc), len(err), time.time() - T0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
