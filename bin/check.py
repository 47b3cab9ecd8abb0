#!/usr/bin/env python3-vt
"""Decide one property: discharge every obligation of its contracts on /repo's current source.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Anything else: error of the check.
"""
import importlib, json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from cxxvc import verify as V                   # noqa: E402

TRUSTED = ['cxxvc: the AST-to-obligation translation in /verif/cxxvc (engine.py, verify.py)',
           'clang 18 front end (AST of the real translation unit, same flags as the build)',
           'z3 (solver)',
           'models of the C++ standard library in /verif/cxxvc/models.py (libstdc++ behaviour)',
           'the compiler that builds the program']
GENERAL = ['signed overflow wraps; object lifetimes and destructors are not modelled',
           'memory allocation succeeds; writing to an output stream succeeds',
           'streams are good on entry unless the contract says otherwise; output streams are empty and have default formatting',
           'sequence and stream sizes are below 2^40 bytes']


def run_harness(exe, *args, timeout=600):
    with tempfile.TemporaryDirectory(prefix='scribbu-check-', dir='/var/tmp') as tmp:
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', HARNESS_SCRATCH=tmp)
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


def known_findings(pid):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('contracts.' + pid.lower())
    harness = {}

    bp = subprocess.Popen([sys.executable, os.path.join(HERE, 'bin', 'build.py'), pid], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    results = V.verify(mod.CONTRACTS)
    lemmas = mod.lemmas() if hasattr(mod, 'lemmas') else []
    bo, be = bp.communicate()
    if bp.returncode == 0:
        harness['exe'] = bo.decode().strip().split('\n')[-1]
    else:
        harness['err'] = be.decode(errors='replace')[-4000:]
    proof_s = time.time() - t0

    n_ob = sum(o['count'] for r in results for o in r['obligations']) + len(lemmas)
    n_ok = sum(o['proved'] for r in results for o in r['obligations']) + sum(1 for l in lemmas if l['status'] == 'proved')
    errors = [r for r in results if r['error']]
    refuted = [(r, o) for r in results for o in r['obligations'] if o['status'] in ('refuted', 'skipped')]
    unknown = [(r, o) for r in results for o in r['obligations'] if o['status'] == 'unknown']
    bad_lemmas = [l for l in lemmas if l['status'] != 'proved']
    if bad_lemmas:
        print('error: lemma not proved: %s' % bad_lemmas[0]['name'])
        return 3
    if 'exe' not in harness:
        print('error: the sources do not build\n' + harness.get('err', ''))
        return 3
    exe = harness['exe']

    # replay counterexamples, then search (bounded; also runs when everything is proved)
    failing, output = None, ''
    evals = distinct = 0
    samples = []
    wits = [w for r in results for w in r.get('witnesses', []) if w.get('input')]
    for w in wits:
        rc, out, err = run_harness(exe, 'replay', w['input'])
        evals += 1
        if rc != 0 and out.startswith('FAIL'):
            failing, output = out.split('\n')[0][5:], out + err[-3000:]
            source = 'counterexample of obligation "%s"' % w['obligation']
            break
    budget = getattr(mod, 'SEARCH_S', 4) * (10 if tier == 'thorough' else 1)
    if refuted:
        budget = max(budget * 3, 15)
    if failing is None:
        rc, out, err = run_harness(exe, 'search', seed, budget, timeout=800)
        if out.startswith('OK'):
            for l in out.split('\n'):
                if l.startswith('OK'):
                    kv = dict(x.split('=') for x in l.split()[1:])
                    evals += int(kv['evaluations'])
                    distinct += int(kv['distinct'])
                elif l.startswith('SAMPLE'):
                    samples.append(l[7:])
        elif out.startswith('FAIL'):
            failing, output = out.split('\n')[0][5:], out + err[-3000:]
            source = 'search over the executable contract'
        else:
            print('error: harness ended with %s\n%s%s' % (rc, out[-500:], err[-2000:]))
            return 3

    fully = not errors and not unknown and not refuted and n_ob > 0
    level = 'proof' if fully or refuted else 'exploration'
    viol = failing is not None or bool(refuted)
    functions = [{'function': r['function'], 'where': r['where'], 'status': r['error'] or ('proved' if all(o['status'] == 'proved' for o in r['obligations']) else 'not proved'),
                  'obligations': sum(o['count'] for o in r['obligations']), 'discharged': sum(o['proved'] for o in r['obligations']),
                  'paths': r.get('paths'), 'solver_s': r.get('solver_s'), 'inlined': r.get('inlined'), 'callee_contracts': r.get('callee_contracts'),
                  'loops': r.get('loops'), 'library_models': r.get('models'),
                  'unproved': [{'obligation': o['name'], 'where': o['where'], 'status': o['status']} for o in r['obligations'] if o['status'] != 'proved']}
                 for r in results]
    assumptions = GENERAL + list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({a for r in results for a in r.get('assumptions', [])})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'obligations': n_ob, 'discharged': n_ok, 'checker_cmd': 'python3-vt bin/check.py ' + pid,
                       'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])),
                       'functions_under_contract': len({(r['qname'], r['where']) for r in results}), 'contract_cases': len(results), 'functions': functions,
                       'lemmas': [{'name': l['name'], 'status': l['status']} for l in lemmas],
                       'solver_s': round(sum(r.get('solver_s') or 0 for r in results), 3), 'back_end': 'z3 ' + V.z3.get_version_string(),
                       'evaluations': evals, 'distinct_nontrivial': distinct,
                       'rule': 'bounded executable contract on the compiled code (not counted as proved): systematic inputs, then random ones for %s s; '
                               'non-trivial: %s' % (budget, getattr(mod, 'NONTRIVIAL', 'reaches the code under contract')),
                       'samples': samples[:8]},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    if not fully and not refuted:
        ev['coverage']['explanation'] = 'the verifier could not take the current source in full (%s); the bounded executable contract decided this run' % \
            '; '.join([r['function'] + ': ' + r['error'] for r in errors] + ['%s: %s unknown' % (r['function'], o['name']) for r, o in unknown])[:1500]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    for r in results:
        print('%-60s %s  %d/%d obligations' % (r['function'][:60], r['error'] or '', sum(o['proved'] for o in r['obligations']), sum(o['count'] for o in r['obligations'])))
    print('%s: %d of %d obligations discharged in %.1f s; %d executions of the bounded contract' % (pid, n_ok, n_ob, proof_s, evals))
    for k in known_findings(pid):
        print('KNOWN-FINDING: ' + k[len('known: '):])
    if not viol:
        if not fully:
            print('note: not proved on this source; decided by the bounded contract: ' + ev['coverage']['explanation'][:400])
        return 0
    rep = os.path.join(HERE, 'evidence', '%s-replay.txt' % pid)
    with open(rep, 'w') as f:
        f.write('property %s\n' % pid)
        for r, o in refuted:
            f.write('failed obligation: %s / %s at %s (%s)\n' % (r['function'], o['name'], o['where'], o['status']))
            if o['model']:
                f.write('  verifier output: counterexample model\n    %s\n' % o['model'].replace('\n', '\n    '))
        for r in errors:
            f.write('not verified: %s: %s\n' % (r['function'], r['error']))
        if failing is not None:
            f.write('\nfailing input (%s): %s\n' % (source, failing[:200000]))
            f.write('replay: ASAN_OPTIONS=detect_leaks=0 $(python3-vt %s/bin/build.py %s) replay %s\n' % (HERE, pid, failing[:2000]))
            f.write('observed on the real code:\n' + output[-4000:] + '\n')
        else:
            f.write('\nno failing input found within %s s of search\n' % budget)
    for r, o in refuted[:10]:
        print('failed obligation: %s: %s (%s)' % (r['function'], o['name'], o['where']))
    if failing is not None:
        print('failing input: %s: %s' % (failing[:200], output.split('\n')[1] if '\n' in output else ''))
    print('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if failing is not None else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
