#!/usr/bin/env python3
"""check.py ID [quick|thorough] -- decide one property of /repo's current tree.

1. extract every function from /repo's THIR into Verus (xtract);
2. splice in the contracts and verify the property's functions and everything they call,
   together with the lemmas (verify.py);
3. look for a failing input with the real crate (replay/), to replay a failed obligation
   and to stand in, bounded, for a function the verifier could not take.
Exit 0: every obligation discharged (or stand-ins clean). Exit 1: VIOLATION line.
"""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, time
import verify as V
sys.path.insert(0, os.path.join(V.HERE, 'tools'))
import execcheck
from props import PROPS, TRUSTED, ASSUMPTIONS

HERE = V.HERE
EV = os.path.join(HERE, 'evidence')


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ replay
def build_replay():
    exe = os.path.join(HERE, 'replay/target/debug/replay')
    crate = os.path.join(HERE, 'replay')
    with open(os.path.join(V.BUILD, 'replay.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = V.sh(['cargo', 'build', '--offline', '-q'], cwd=crate)
        if p.returncode != 0:
            raise V.ToolError('replay crate does not build: ' + p.stderr[-3000:])
    return exe


def run_replay(pid, seed, tier, timeout):
    """(report, error): the report is the JSON line for this property."""
    exe = build_replay()
    try:
        p = V.sh([exe, pid, str(seed), tier, '3'], timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(property=pid, evaluations=0, distinct_nontrivial=0, rule='', samples=[],
                    failures=['the failing-input search did not finish within %d s: the code under test does not terminate on some input, or became too slow' % timeout]), 'timeout'
    for ln in p.stdout.splitlines():
        if ln.startswith('{'):
            return json.loads(ln), None
    if p.returncode < 0 or p.returncode > 100:
        return dict(property=pid, evaluations=0, distinct_nontrivial=0, rule='', samples=[],
                    failures=['the process running the code under test died with status %d: %s' % (p.returncode, p.stderr[-400:])]), 'crash'
    raise V.ToolError('replay gave no answer: ' + p.stderr[-2000:])


# ------------------------------------------------------------------ proof
def probes(fns, contracts, names):
    """Functions that must NOT verify: one per precondition, and one for the axioms."""
    out, who = [], []
    for n in names:
        c, f = contracts.get(n), fns.get(n)
        if not c or 'requires' not in c.spec or f is None:
            continue
        req = re.search(r'requires(.*?)(?=^\s*ensures|\Z)', c.spec, re.S | re.M)
        out.append('#[verifier::spinoff_prover] #[verifier::rlimit(2)] ' + V.sig(f).replace('fn ' + n, 'fn vacuity_' + n, 1).split(' -> (r:')[0]
                   + '\n    requires ' + req.group(1).strip() + '\n{ proof { assert(false); } loop decreases 0int { } }\n')
        who.append('vacuity_' + n)
    return out, who


AXIOM_PROBE = '''#[verifier::spinoff_prover] #[verifier::rlimit(2)]
proof fn vacuity_axioms<T: Finite>(a: T, b: T, c: T)
    requires lt(a, b), lt(b, c), s_succ(a) == Some(b), lt(s_min::<T>(), a), lt(c, s_max::<T>()), s_pred(c) is Some
{ broadcast use grp_order, grp_fin, grp_pos; assert(plt(Pos::At(a), Pos::At(b))); assert(false); }
'''


class Proof:
    pass


def classify(r, path, lm, text):
    """Map every error to the function it is in. kind: proof | rlimit | compile."""
    out = {}
    src = text.splitlines()

    def lemma_at(l):
        for i in range(min(l, len(src)) - 1, -1, -1):
            m = re.match(r'(?:pub )?(?:broadcast )?(?:proof|spec|open spec|axiom) fn (\w+)|pub broadcast proof fn (\w+)', src[i])
            if m:
                return m.group(1) or m.group(2)
        return '?'
    vr = (r['json'] or {}).get('verification-results') or {}
    compiled = 'verified' in vr and not vr.get('encountered-vir-error') and not re.search(r'^error\[E\d+\]', r['err'], re.M)
    for msg, lines, raw in V.parse_errors(r['err'], path):
        who = next((n for a, b, n in lm if lines and a <= lines[0] <= b), None)
        if who is None:
            who = next((n for a, b, n in lm if any(a <= l <= b for l in lines)), None)
        if who is None:
            who = 'theory:' + (lemma_at(lines[0]) if lines else '?')
        kind = 'proof'
        if 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'timed out' in msg:
            kind = 'rlimit'
        elif not compiled:
            kind = 'compile'
        out.setdefault(who, []).append((kind, msg, '\n'.join(raw[:14])))
    return compiled, vr, out


def prove(pid, roots, contracts, tier, seed):
    P = Proof()
    P.fallback, P.failed, P.log = {}, {}, []
    P.smt_ms, P.wall = 0, 0.0
    dropped = set()
    ext = None
    external = {}
    choice = {}
    best = None
    t_end = time.time() + (480 if tier == 'quick' else 660)     # the search for failing inputs needs the rest of the 900 s
    for attempt in range(14):
        if attempt and time.time() > t_end:
            P.log.append('out of time after %d attempts' % attempt)
            break
        active = {n: c for n, c in contracts.items() if n not in dropped}
        if ext is None:
            ext = V.extract(active)
        fns = {f['name']: f for f in ext['fns']}
        pub = {n: f['pub'] for n, f in fns.items()}
        have = [n for n in roots if n in fns and n not in dropped]
        lost = [n for n in roots if n not in fns]
        cone = [n for n in V.cone(fns, active, have) if n in active]
        text, lm, problems = V.assemble(ext, active, cone, external=external, choice=choice)
        # vacuity probes ride along
        pr, prn = probes(fns, active, have)
        tail = '} // verus!\nfn main() {}\n'
        assert text.endswith(tail)
        text = text[:-len(tail)]
        for t, n in list(zip(pr, prn)) + [(AXIOM_PROBE, 'vacuity_axioms')]:
            s = text.count('\n') + 1
            text += t
            lm.append((s, text.count('\n'), n))
        prn.append('vacuity_axioms')
        text += tail
        path = os.path.join(V.BUILD, f'{pid}-{os.getpid()}.rs')
        open(path, 'w').write(text)
        extra = []
        r = V.run_verus(path, extra, timeout=max(60, min(400, t_end - time.time())))
        P.wall += r['wall']
        compiled, vr, errs = classify(r, path, lm, text)
        P.cmd = 'verus %s --output-json --multiple-errors 5 --num-threads 8 %s' % (os.path.basename(path), ' '.join(extra))
        if r['json']:
            P.smt_ms += ((r['json'].get('times-ms') or {}).get('smt') or {}).get('total', 0)
        keep = os.path.join(V.BUILD, f'{pid}.rs')
        shutil.move(path, keep)
        lost_anchor = {n: w for n, w in problems.items() if n in cone}
        # a private helper whose shape changed: judge its body inside its callers instead
        inl = [n for n in list(lost_anchor) + [n for n in errs if n in cone] if n in fns and not pub[n] and n not in dropped and (n not in roots or any(re.search(r'\b%s\(' % n, fns[m]['body']) for m in cone if m != n and m in fns))
               and not (n in external and external[n].startswith('verifier'))]
        P.log.append('attempt %d: compiled=%s verified=%s errors in %s lost %s' % (attempt, compiled, vr.get('verified'), sorted(k for k in errs if not k.startswith('vacuity_')), sorted(lost_anchor)))
        real = {k: v for k, v in errs.items() if not k.startswith('vacuity_')}
        state = dict(ext=ext, compiled=compiled, vr=vr, errs=real, allerrs=errs, cone=cone, lost=lost_anchor, missing=lost, prn=prn, external=dict(external), have=have, dropped=set(dropped), active=active, fns=fns)
        if not compiled:
            bad = [n for n, es in real.items() if n in cone and n not in external]
            # annotations of another form may suit the loops by name but not by type
            other = [n for n in bad if n in fns and n in active and active[n].variants and V.splice(fns[n], active[n], choice.get(n, 0) + 1)[0] is not None]
            if other:
                for n in other:
                    choice[n] = choice.get(n, 0) + 1
                continue
            if inl:
                dropped |= set(inl); ext = None
                continue
            if bad:
                for n in bad:
                    external[n] = 'verifier: ' + real[n][0][1]
                continue
            P.broken = 'the assembled file is not accepted: ' + (r['err'][-1500:] if not real else str(list(real.items())[:2]))
            P.state = state
            return P
        # a function may be written in a form that other annotations suit better
        for n in [n for n in real if n in fns and n in active and active[n].variants]:
            for k in range(len(active[n].variants) + 2):
                if time.time() > t_end - 60 or V.splice(fns[n], active[n], k)[0] is None:
                    break
                if k == choice.get(n, 0):
                    continue
                alt = V.assemble(ext, active, cone, external=external, choice={**choice, n: k})[0]
                open(path, 'w').write(alt)
                r2 = V.run_verus(path, ['--verify-root', '--verify-function', n], timeout=120)
                os.remove(path)
                P.wall += r2['wall']
                v2 = (r2['json'] or {}).get('verification-results') or {}
                if r2['rc'] == 0 and v2.get('verified', 0) > 0 and not v2.get('errors', 1):
                    P.log.append('%s: discharged with annotations %d' % (n, k))
                    real.pop(n); errs.pop(n, None)
                    vr = dict(vr, verified=vr.get('verified', 0) + 1)
                    break
        state.update(errs=real, vr=vr)
        if real:
            # each function is a query of its own: one that any search of the solver discharges is discharged
            for sd, lim in ((7, 60), (23, 120)):
                if time.time() > t_end - 60:
                    break
                shutil.copy(keep, path)
                r2 = V.run_verus(path, ['--rlimit', str(lim), '--smt-option', f'smt.random_seed={sd}', '--smt-option', f'sat.random_seed={sd}'], timeout=200)
                P.wall += r2['wall']
                c2, vr2, errs2 = classify(r2, path, lm, text)
                os.remove(path)
                if not c2 or 'errors' not in vr2:
                    continue
                gone = [n for n in real if n not in errs2]
                for n in gone:
                    P.log.append('%s: discharged with solver seed %d' % (n, sd))
                    real.pop(n); errs.pop(n, None)
                for n in real:
                    if n in errs2 and not any(k == 'proof' for k, _, _ in real[n]) and any(k == 'proof' for k, _, _ in errs2[n]):
                        real[n] = errs2[n]
                vr = dict(vr, verified=vr.get('verified', 0) + len(gone))
                state.update(vr=vr)
                if not real:
                    break
            state.update(errs=real)
        if best is None and (real or lost_anchor):
            best = state
            best['retry'] = False
        if inl and attempt < 8:
            dropped |= set(inl); ext = None
            continue
        break
    P.state = state
    # inlining a private helper is only an improvement when the callers then verify
    if best is not None and state is not best and (state['errs'] or state['lost']):
        if len(best['errs']) + len(best['lost']) <= len(state['errs']) + len(state['lost']):
            P.state = best
    P.broken = None
    return P


def validate(pid, contracts):
    """Run the extracted text against the crate on the same inputs."""
    try:
        return execcheck.compare(f'{pid}-{os.getpid()}', contracts)[0]
    except Exception as e:
        return dict(ran=False, why=str(e)[-500:])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[pid]
    t0 = time.time()
    os.makedirs(V.BUILD, exist_ok=True)
    os.makedirs(EV, exist_ok=True)
    contracts = V.load_contracts()
    roots = [n for n in contracts if any(re.fullmatch(p, n) for p in spec['roots'])]
    missing_con = [p for p in spec['roots'] if not any(re.fullmatch(p, n) for n in contracts)]
    if missing_con:
        log('no contract matches', missing_con)
        sys.exit(2)
    with open(os.path.join(V.BUILD, 'xtract.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        V.ensure_extractor()
    ex = concurrent.futures.ThreadPoolExecutor(3)
    fr = ex.submit(run_replay, pid, seed, tier, 240 if tier == 'quick' else 900)
    fx = ex.submit(validate, pid, contracts)
    broken = None
    try:
        P = prove(pid, roots, contracts, tier, seed)
        broken = P.broken
    except V.ToolError as e:
        P = None
        broken = str(e)
    rep, rep_err = fr.result()
    val = fx.result()

    undecided, failed = {}, {}
    nverified = 0
    cone = []
    vac = []
    if P is not None:
        st = P.state
        cone = st['cone']
        for n, w in st['lost'].items():
            undecided[n] = w
        for n in st['missing']:
            # a contracted function that is gone: whatever replaced it is inlined in its callers
            if contracts.get(n) is not None:
                undecided[n] = 'no function of this name in /repo'
        for n in st['fns']:
            # an override of a provided trait method stands beside the contracted ones and speaks for the same type
            m = re.match(r'(\w+_(?:Iterator|DoubleEndedIterator|PartialEq|PartialOrd|Ord|Clone))_\w+$', n)
            if m and n not in contracts and any(c.startswith(m.group(1) + '_') for c in cone):
                undecided[n] = 'overrides a provided method and has no contract'
        for n, es in st['errs'].items():
            blind = [c for c in (st['fns'].get(n) or {}).get('calls', []) if c in st['fns'] and c not in st['active']]
            if blind:
                # judged without knowing what these do
                undecided[n] = 'calls %s, which has no contract and could not be inlined' % ', '.join(blind)
            elif (st['fns'].get(n) or {}).get('auto'):
                undecided[n] = st['fns'][n]['auto'] + ', and unwinding it twice is not enough'
            elif any(k == 'proof' for k, _, _ in es):
                failed[n] = es
            else:
                undecided[n] = es[0][1]
        if not broken:
            nverified = st['vr'].get('verified', 0)
            # vacuity: every probe must have failed
            ok = [n for n in st['prn'] if n not in st['allerrs']]
            if ok:
                vac = ok
                undecided['vacuity'] = 'probes verified although they assert false: ' + ', '.join(ok)
            if nverified == 0:
                undecided['vacuity'] = 'no obligations were generated'
            for n in [n for n in failed if n.startswith('theory:')]:
                undecided[n] = failed.pop(n)[0][1]
    if val.get('differ'):
        # the extracted text does not do what the crate does: nothing proved or refuted about it counts
        undecided['extraction'] = 'differs from the crate when run: ' + ', '.join(val['differ'])
        undecided.update({n: es[0][1] for n, es in failed.items()})
        failed = {}
    if broken:
        undecided['*'] = broken
        failed = {}
    # anything not discharged: search deeper for a failing input
    if (failed or undecided) and tier == 'quick' and not rep['failures']:
        rep2, _ = run_replay(pid, seed, 'thorough', 300)
        if rep2['failures'] and 'did not finish' in rep2['failures'][0]:
            rep2['failures'] = []
        rep = rep2 if rep2['evaluations'] else rep
    violation = None
    if rep['failures']:
        violation = 'input'
    elif failed:
        violation = 'obligation'

    reppath = None
    if violation:
        reppath = os.path.join(EV, f'{pid}.replay.txt')
        with open(reppath, 'w') as f:
            f.write(f'property {pid}: {spec["title"]}\n\n')
            if rep['failures']:
                f.write('Failing inputs on the real code (found by /verif/replay, which calls the crate built from /repo):\n')
                for x in rep['failures']:
                    f.write('  ' + x + '\n')
                f.write(f'\nreproduce: cd /verif/replay && cargo run --offline -q -- {pid} {seed} {tier} 3\n\n')
            else:
                f.write('no failing input found: %d inputs tried (%s)\n\n' % (rep['evaluations'], rep['rule']))
            for n, es in failed.items():
                loc = st['fns'].get(n, {}).get('path', n) if P else n
                f.write(f'FAILED OBLIGATION in {n} ({loc})\n')
                for k, m, raw in es:
                    f.write(raw + '\n\n')
            for n, w in undecided.items():
                f.write(f'undecided: {n}: {w}\n')
            if P:
                f.write('\n' + '\n'.join(P.log) + f'\nassembled file: build/{pid}.rs\n')

    errs_n = len(failed) + len([n for n in undecided if n in (P.state['errs'] if P else {})])
    proved = not failed and not undecided
    under = [n for n in cone if n not in undecided and n not in failed]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if proved else 'other', wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
              assumptions=ASSUMPTIONS + spec.get('assumptions', []),
              coverage=dict(
                  obligations=nverified + errs_n + len([n for n in undecided if n not in (P.state['errs'] if P else {})]), discharged=nverified,
                  checker_cmd=P.cmd if P and hasattr(P, 'cmd') else 'verus (not reached)',
                  back_end='Verus 0.2026.09.13 with Z3; one spinoff query per function',
                  smt_ms=P.smt_ms if P else 0, verifier_wall_s=round(P.wall, 2) if P else 0,
                  functions_under_contract=sorted(under), roots=sorted(roots), inlined_without_contract=sorted({i for n in cone for i in (P.state['fns'].get(n, {}).get('inlined') or [])}) if P else [],
                  theorems=spec['theorems'], vacuity_probes=dict(run=len(P.state['prn']) if P else 0, all_failed_as_required=not vac),
                  failed_obligations={n: [m for _, m, _ in es] for n, es in failed.items()},
                  not_proved_bounded_only=undecided,
                  trusted_base=TRUSTED, extraction_run_against_crate=val,
                  evaluations=rep['evaluations'], distinct_nontrivial=rep['distinct_nontrivial'], rule=rep['rule'], samples=rep['samples'],
                  bounded_role='failing-input search on the real crate; counts below are not part of the proof',
                  explanation='all obligations discharged' if proved else 'not every obligation was discharged on this tree; see failed_obligations and not_proved_bounded_only (bounded search stands in for those, never counted as proved)'))
    json.dump(ev, open(os.path.join(EV, f'{pid}.json'), 'w'), indent=1)
    if P:
        for l in P.log:
            log(l)
    if violation:
        print(f'VIOLATION property={pid} replay={reppath}' + ('' if violation == 'input' else ' no-failing-input-found'))
        sys.exit(1)
    print(f'{pid}: {nverified} obligations discharged, {len(under)} functions under contract, {rep["evaluations"]} inputs replayed clean'
          + ('' if proved else f'; NOT PROVED (bounded only): {sorted(undecided)}'))
    sys.exit(0)


if __name__ == '__main__':
    main()
