#!/usr/bin/env python3
"""Decide one property: rebuild the harness from /repo, run the symbolic engine on every entry of
the property, confirm counterexamples by native replay, write the evidence.

  check.py PROPERTY [--tier quick|thorough] [--only ENTRY]

exit 0: held on everything explored   1: violation (natively reproduced)   2: no answer"""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import entries as table

TC = 'stable-x86_64-unknown-linux-gnu'
HOME = os.environ.get('RUSTUP_HOME', '/root/.rustup')
OPT = f'{HOME}/toolchains/{TC}/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt'
BUILD = os.path.join(V, 'build')
REPO = '/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)
T0 = time.time()


def log(*a):
    print(f'[{time.time()-T0:6.1f}s]', *a, flush=True)


def die(msg):
    print('NO-ANSWER: ' + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    exe = os.path.join(V, 'symx/target/release/symx')
    r = run(['cargo', 'build', '--offline', '--release'], cwd=os.path.join(V, 'symx'), env=ENV)
    if r.returncode:
        die('the engine does not build\n' + r.stdout[-3000:])
    return exe


def released(feats, profile):
    """scenarios of the feature `rel` are built like a release: without debug assertions"""
    if 'rel' not in feats.split(','):
        return {}
    return {'CARGO_PROFILE_%s_DEBUG_ASSERTIONS' % profile: 'false', 'CARGO_PROFILE_%s_OVERFLOW_CHECKS' % profile: 'false'}


def build_ir(feats, tag):
    """LLVM IR of harness + /repo + their dependencies + the standard library, one module"""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'sym'), **released(feats, 'RELEASE'))
    deps = os.path.join(BUILD, 'sym/release/deps')
    for f in glob.glob(deps + '/harness-*.ll'):
        os.unlink(f)
    r = run(['cargo', 'rustc', '--offline', '--release', '--features', feats, '--', '--emit=llvm-ir', '-C', 'no-prepopulate-passes'],
            cwd=os.path.join(V, 'harness'), env=env)
    lls = glob.glob(deps + '/harness-*.ll')
    # linking fails on purpose: the engine's functions are undefined symbols
    errs = [l for l in r.stdout.splitlines() if re.match(r'error(\[|:)', l) and 'linking with' not in l and 'could not compile' not in l]
    if len(lls) != 1 or errs:
        return None, r.stdout
    return lls[0], ''


def lower(ll, entries, wd, symx):
    os.makedirs(wd, exist_ok=True)
    a, p, q = (os.path.join(wd, x) for x in ('a.ll', 'p.ll', 'q.ll'))
    for cmd in ([OPT, '-S', '-passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(entries), ll, '-o', a],
                [symx, 'prep', a, p],
                [OPT, '--strip-debug', '-passes=default<O1>,globaldce', '-S', p, '-o', q]):
        r = run(cmd)
        if r.returncode:
            die('lowering failed: %s\n%s' % (' '.join(cmd)[:200], r.stdout[-2000:]))
    os.unlink(a)
    os.unlink(p)
    return q


def native(feats):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'nat'), **released(feats, 'NATIVE'))
    r = run(['cargo', 'build', '--offline', '--profile', 'native', '--features', 'native,' + feats], cwd=os.path.join(V, 'harness'), env=env)
    if r.returncode:
        die('the native harness does not build\n' + r.stdout[-3000:])
    return os.path.join(BUILD, 'nat/native/harness')


def demangle(n):
    # v0 symbol: keep the identifiers
    return n


def merge(out):
    tot = collections.Counter()
    maps = {k: collections.Counter() for k in ('assert_ids', 'reach', 'panics', 'errors', 'vcount')}
    fns, samples, vio, parts = set(), [], [], 0
    complete = True
    for f in sorted(glob.glob(out + '/part*.json')):
        j = json.load(open(f))
        parts += 1
        complete &= j['complete']
        for k in ('paths', 'infeasible', 'forks', 'bounded', 'instrs', 'asserts', 'assert_queries', 'queries', 'cached', 'sat', 'unsat', 'unknown', 'solver_us'):
            tot[k] += j[k]
        tot['max_pc'] = max(tot['max_pc'], j['max_pc'])
        for k in maps:
            maps[k].update(j[k])
        fns.update(j['functions'])
        samples += j['samples']
        vio += j['violations']
    return tot, maps, fns, samples, vio, complete


def replay(exe, entry, v, tries):
    """does the real code misbehave in the same way on these inputs?"""
    args = [exe, entry] + [str(x) for x in v['inputs']]
    last = ''
    for _ in range(tries):
        try:
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, errors='replace')
        except subprocess.TimeoutExpired:
            return True, 'does not terminate within 60 s'
        last = r.stdout[-1500:]
        if r.returncode in (10, 11, 101) or r.returncode < 0:
            return True, last
        if r.returncode == 3:
            return False, last
    return False, last


def repo_fn(n):
    return 'ttgraph' in n or 'harness' in n


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    a = sys.argv[2:]
    while a:
        if a[0] == '--tier':
            tier = a[1]
        elif a[0] == '--only':
            only = a[1].split(',')
        a = a[2:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = table.TABLE[prop]
    ents = [e for e in spec['entries'] if (tier == 'thorough' or e.get('tier', 'quick') == 'quick') and (not only or e['name'] in only)]
    known = []
    kf = os.path.join(V, 'known-findings.txt')
    for l in open(kf) if os.path.exists(kf) else []:
        m = re.match(r'known: property=(\S+) entry=(\S+) assert=(\S+)(?: inputs=(\S+))? (.*)', l.strip())
        if m and m.group(1) == prop:
            known.append(m.groups())
    symx = build_engine()
    log('engine ready')
    budget = float(os.environ.get('SYMX_BUDGET') or (720 if tier == 'quick' else 6 * 3600))
    results, functions, errors, incomplete, violations = [], set(), [], [], []
    for feats in sorted({e.get('features', 'dbg') for e in ents}):
        fe = ','.join(x for x in (feats, prop.lower()) if x and x != 'none')
        group = [e for e in ents if e.get('features', 'dbg') == feats]
        ll, msg = build_ir(fe, prop)
        if ll is None:
            if spec.get('compile_is_property') and feats == 'none':
                # the claim includes that this configuration compiles
                path = os.path.join(V, 'evidence', 'replay-%s.sh' % prop)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                open(path, 'w').write('#!/bin/bash\n# the crate does not compile without its default features\ncd /repo && cargo check --offline --no-default-features\n')
                os.chmod(path, 0o755)
                r = run(['cargo', 'check', '--offline', '--no-default-features', '--target-dir', os.path.join(BUILD, 'ndf')], cwd=REPO, env=ENV)
                if r.returncode:
                    violations.append((dict(kind='compile', id=0, what='does not compile', inputs=[]), group[0]['name'], path, r.stdout[-800:]))
                    continue
            die('the harness does not build against /repo\n' + msg[-4000:])
        wd = os.path.join(BUILD, 'run', prop)
        shutil.rmtree(wd, ignore_errors=True)
        q = lower(ll, [e['name'] for e in group], wd, symx)
        log('IR of %s: %d KB' % (feats, os.path.getsize(q) // 1024))
        for e in group:
            if violations and not known and tier == 'quick':
                incomplete.append(e['name'])
                continue
            left = budget - (time.time() - T0)
            if left < 5:
                incomplete.append(e['name'])
                log('not run (time budget):', e['name'])
                continue
            # concurrent entries: the number of preemptions is raised until it no longer limits anything
            left = min(left, e.get('time', 170 if tier == 'quick' else left))
            end = time.time() + left
            rounds = e.get('preempt', [None])
            cut = None
            for bound in rounds:
                out = os.path.join(wd, e['name'])
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                cmd = [symx, 'run', q, e['name'], '--out', out, '--time', str(int(max(5, end - time.time()))), '--workers', str(min(8, os.cpu_count() or 8)), '--limit', str(e.get('limit', 40_000_000))]
                if bound is not None:
                    cmd += ['--preempt', str(bound)]
                if not known and tier == 'quick':
                    # enough counterexamples to report: no need to explore the rest
                    cmd += ['--maxvio', '24']
                r = run(cmd)
                if not os.path.exists(out + '/part0.json') or r.returncode not in (0, 3):
                    die('engine failed on %s: %s' % (e['name'], r.stdout[-2000:]))
                last = merge(out)
                done = last[5] and r.returncode == 0
                if done or cut is None or last[4]:
                    tot, maps, fns, samples, vio, complete = last
                    complete = done
                if vio or not done:
                    break
                cut = bound if tot['bounded'] else None
                if not tot['bounded'] or time.time() > end - 5:
                    break
            if complete and cut is not None:
                log('%s: complete for up to %d preemptions of a thread' % (e['name'], cut))
            functions |= fns
            log('%s: paths=%d infeasible=%d forks=%d checks=%d queries=%d (+%d cached) solver=%.2fs%s%s' % (
                e['name'], tot['paths'], tot['infeasible'], tot['forks'], tot['asserts'], tot['queries'], tot['cached'], tot['solver_us'] / 1e6,
                '' if complete else ' INCOMPLETE', (' violations=%d' % sum(maps['vcount'].values())) if vio else ''))
            if maps['errors']:
                errors.append('%s: %s' % (e['name'], dict(maps['errors'])))
            if tot['unknown']:
                errors.append('%s: %d solver queries undecided' % (e['name'], tot['unknown']))
            if not complete:
                incomplete.append(e['name'])
            miss = [x for x in e.get('reach', []) if str(x) not in maps['reach']]
            if miss and complete and not vio:
                errors.append('%s: intended situations %s never reached (vacuous)' % (e['name'], miss))
            results.append(dict(entry=e['name'], bounds=e.get('bounds', ''), complete=complete, paths=tot['paths'], infeasible_branches=tot['infeasible'],
                                forks=tot['forks'], instructions=tot['instrs'], assertions_checked=tot['asserts'], assertions_decided_by_solver=tot['assert_queries'],
                                solver_queries=tot['queries'], solver_queries_cached=tot['cached'], sat=tot['sat'], unsat=tot['unsat'], solver_s=round(tot['solver_us'] / 1e6, 3),
                                preemption_bound=cut, reach=dict(maps['reach']), panics_expected_by_the_property=dict(maps['panics']), sample_inputs=samples[:2]))
            if vio:
                exe = native(fe)
                seen = collections.Counter()
                for v in sorted(vio, key=lambda v: len(v['inputs'])):
                    key = (v['kind'], v['id'], v['what'])
                    if seen[key] >= 3 or len(seen) > 12:
                        continue
                    seen[key] += 1
                    ok, txt = replay(exe, e['name'], v, e.get('tries', 12))
                    if ok:
                        violations.append((v, e['name'], None, txt))
                        if not known and tier == 'quick':
                            break
                    else:
                        errors.append('%s: counterexample %s not reproduced natively: %s' % (e['name'], json.dumps(v)[:400], txt[-300:]))
            if tier == 'thorough' and not vio and samples:
                # validate the engine against the real code on the witnesses of explored paths
                exe = native(fe)
                bad = 0
                sub = samples[:: max(1, len(samples) // 40)][:40]
                for s in sub:
                    ok, txt = replay(exe, e['name'], dict(inputs=s), 1)
                    if ok or 'REPLAY-OK' not in txt:
                        bad += 1
                        errors.append('%s: native run of witness %s disagrees: %s' % (e['name'], s, txt[-300:]))
                results[-1]['witnesses_replayed_natively'] = len(sub)
            shutil.rmtree(out, ignore_errors=True)
    # verdict
    fresh, old = [], []
    for v, entry, path, txt in violations:
        k = [x for x in known if x[1] == entry and x[2] in (str(v['id']), v['kind']) and (not x[3] or x[3] == ','.join(map(str, v['inputs'])))]
        (old if k else fresh).append((v, entry, path, txt, k[0][4] if k else ''))
    for v, entry, path, txt, why in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, why))
    total = collections.Counter()
    for r in results:
        for k in ('paths', 'forks', 'assertions_checked', 'assertions_decided_by_solver', 'solver_queries', 'solver_queries_cached', 'infeasible_branches', 'instructions'):
            total[k] += r[k]
    tt = sorted(f for f in functions if 'ttgraph' in f or '7harness' in f)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(fresh),
              assumptions=table.ASSUMPTIONS + spec.get('assumptions', []),
              coverage=dict(states=total['paths'], transitions=total['forks'],
                            traces_validated_against_impl=sum(r.get('witnesses_replayed_natively', 0) for r in results) + len(violations),
                            samples=[dict(entry=r['entry'], inputs=r['sample_inputs']) for r in results][:8],
                            exhaustive=not incomplete and not errors,
                            explanation='symbolic execution of the LLVM IR of /repo + harness; states = feasible symbolic paths, transitions = forks on symbolic branches; z3 decides every branch and assertion',
                            incomplete_entries=incomplete, totals=dict(total), solver_s=round(sum(r['solver_s'] for r in results), 3),
                            queries_discharged=total['solver_queries'] + total['solver_queries_cached'], entries=results,
                            functions_encoded=len(functions), repo_functions_encoded=len(tt), repo_functions=tt[:400], errors=errors))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if fresh:
        v, entry, path, txt, _ = fresh[0]
        if not path:
            path = os.path.join(V, 'evidence', 'replay-%s.sh' % prop)
            feats = next(e.get('features', 'dbg') for e in ents if e['name'] == entry)
            fe = ','.join(x for x in ('native', feats, prop.lower()) if x and x != 'none')
            open(path, 'w').write('#!/bin/bash\n# counterexample of %s in scenario %s: %s assertion %s %s\n# exit 10: assertion violated, 101: unexpected panic\ncd %s/harness && CARGO_TARGET_DIR=%s/nat RUSTUP_TOOLCHAIN=%s cargo run -q --offline --profile native --features %s -- %s %s\n' % (
                prop, entry, v['kind'], v['id'], v['what'], V, BUILD, TC, fe, entry, ' '.join(map(str, v['inputs']))))
            os.chmod(path, 0o755)
        ev['coverage']['counterexample'] = dict(entry=entry, kind=v['kind'], assertion=v['id'], what=v['what'], inputs=v['inputs'], native=txt[-600:])
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for e in errors:
        log('ERROR', e)
    if fresh:
        for v, entry, _, txt, _ in fresh[:6]:
            log('counterexample in', entry, v['kind'], 'assertion', v['id'], v['what'], v['inputs'], '->', ' | '.join(txt.strip().splitlines()[-3:]))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        sys.exit(1)
    if errors:
        die('; '.join(errors)[:1500])
    if incomplete:
        log('explored only in part within the time budget:', ' '.join(incomplete))
    if not results:
        die('nothing explored')
    log('held: %d symbolic paths, %d assertions, %d queries' % (total['paths'], total['assertions_checked'], total['solver_queries'] + total['solver_queries_cached']))


main()
