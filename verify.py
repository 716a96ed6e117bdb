#!/usr/bin/env python3
"""Assemble the functions extracted from /repo with their contracts and run Verus on them.

Library used by check.py; also runnable by hand:
    verify.py build                    extract everything, write build/all.rs, verify it
    verify.py fn NAME...               verify only these functions (others assumed by contract)
    verify.py prop ID                  verify the cone of one property
"""
import tempfile, json, os, re, subprocess, sys, time, shutil, fcntl
import unroll

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
CON = os.path.join(HERE, 'contracts')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(self, name):
        self.name = name
        self.spec = ''          # requires/ensures text
        self.hints = {}         # ('start',0) ('exit',0) ('loop',n) ('body',n) ('pre',n) ('post',n)
        self.variants = []      # earlier sets of hints, when there is more than one
        self.attrs = []


def load_contracts():
    out = {}
    for fn in sorted(os.listdir(CON)):
        if not fn.endswith('.con'):
            continue
        cur, key = None, None
        macros = {}
        for ln in open(os.path.join(CON, fn)):
            if ln.startswith('##'):
                continue
            m = re.match(r'=== (.*)$', ln)
            if m:
                names = m.group(1).split()
                attrs = [a for a in names if a.startswith('#')]
                names = [a for a in names if not a.startswith('#')]
                cur = []
                for n in names:
                    c = Contract(n)
                    c.attrs = attrs
                    if n in out:
                        raise SystemExit(f'duplicate contract {n}')
                    out[n] = c
                    cur.append(c)
                key = None
                continue
            if cur is None:
                continue
            if re.match(r'@variant\s*$', ln):
                # another set of loop annotations, for the same function written differently
                for c in cur:
                    c.variants.append(c.hints)
                    c.hints = {k: v for k, v in c.variants[0].items() if k[1] == 0}
                key = ('skip', 0)
                continue
            m = re.match(r'@(start|exit)\s*$', ln) or re.match(r'@(loop|body|pre|post|end|ghost)\s+(\d+)\s*$', ln)
            if m:
                key = (m.group(1), int(m.group(2)) if m.lastindex > 1 else 0)
                for c in cur:
                    c.hints[key] = ''
                continue
            for c in cur:
                if key is None:
                    c.spec += ln
                elif key[0] != 'skip':
                    c.hints[key] += ln
    return out


# ---------------------------------------------------------------- extraction
class ToolError(Exception):
    pass


def ensure_extractor():
    exe = os.path.join(HERE, 'xtract/target/debug/xtract')
    srcs = [os.path.join(HERE, 'xtract/src', f) for f in os.listdir(os.path.join(HERE, 'xtract/src'))]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
        p = sh(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(HERE, 'xtract'))
        if p.returncode != 0 or not os.path.exists(exe):
            raise ToolError('extractor does not build: ' + p.stderr[-2000:])
    return exe


def extract(contracts):
    """Run the THIR extractor over /repo's current tree."""
    exe = ensure_extractor()
    os.makedirs(BUILD, exist_ok=True)
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    tgt = tempfile.mkdtemp(prefix='xt-', dir=BUILD)
    names = os.path.join(tgt, 'contracted.txt')
    open(names, 'w').write('\n'.join(contracts) + '\n')
    outp = os.path.join(tgt, 'o.json')
    env = dict(os.environ, CARGO_INCREMENTAL='0', LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=exe,
               XTRACT_OUT=outp, XTRACT_CRATE='normalize_interval', CARGO_TARGET_DIR=tgt, XTRACT_CONTRACTED=names)
    env.pop('RUSTFLAGS', None)
    try:
        p = sh(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=REPO, env=env)
        if p.returncode != 0 or not os.path.exists(outp):
            shutil.rmtree(os.path.join(tgt, 'debug'), ignore_errors=True)
            p = sh(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=REPO, env=env)
        if p.returncode != 0 or not os.path.exists(outp):
            raise ToolError('extraction failed: ' + p.stderr[-3000:])
        ext = json.load(open(outp))
        canonical_params(ext)
        for f in ext['fns']:
            k = [a.split('=')[1] for a in getattr(contracts.get(f['name']), 'attrs', []) if a.startswith('#unroll=')]
            if k and f['loops']:
                try:
                    f['body'] = unroll.unroll(f['body'], [l['id'] for l in f['loops']], int(k[0]), f['ret'])
                    f['loops'] = []
                except unroll.Cannot as x:
                    f['unsupported'].append(f'loop cannot be unwound ({x})')
        return ext
    finally:
        shutil.rmtree(tgt, ignore_errors=True)


# ---------------------------------------------------------------- assembly
HEAD = '''// generated by verify.py from %s -- do not edit
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, unused_assignments, non_snake_case, non_camel_case_types, unreachable_code, unused_must_use, unused_labels, non_upper_case_globals, unused_unsafe, unreachable_patterns)]
use vstd::prelude::*;
use vstd::pervasive::unreached;
use std::cmp::Ordering;
use vstd::std_specs::option::*;
verus! {
'''

def canonical_params(ext):
    """Contracts name parameters as they were called when the contract was written (params.json);
    a renamed parameter is renamed back, so that contracts do not depend on parameter names."""
    want = json.load(open(os.path.join(CON, 'params.json')))
    for f in ext['fns']:
        have = [p[0] for p in f['params']]
        names = want.get(f['name'], have)
        if len(names) != len(have):
            names = have
        names = [n + '_0_' if n == 'r' else n for n in names]
        ren = {a: b for a, b in zip(have, names) if a != b}
        if not ren:
            continue
        clash = {b for b in ren.values() if b not in have and re.search(r'(?<![.\w])%s\b' % re.escape(b), f['body'])}
        full = dict(ren)
        for b in clash:
            full[b] = b + '_local_'

        def sub(text):
            return re.sub(r'(?<![.\w\\])[A-Za-z_]\w*\b(?!\s*:(?!:))', lambda m: full.get(m.group(0), m.group(0)), text)
        f['body'] = sub(f['body'])
        f['params'] = [[b, p[1]] for b, p in zip(names, f['params'])]
        for l in f['loops']:
            l['vars'] = {full.get(k, k): v for k, v in l['vars'].items()}


IMPLICIT_CMP = ('Tine_Ord_cmp', 'Tine_PartialOrd_partial_cmp')


def cone(fns, contracts, roots):
    seen, todo = [], list(roots)
    while todo:
        n = todo.pop()
        if n in seen or n not in fns:
            continue
        seen.append(n)
        f = fns[n]
        todo += f['calls']
        todo += ['%s' % t for t in f.get('toit', [])]
        b = f['body']
        if re.search(r'\bBSet_(insert|replace|take|remove|contains|get|split_off|append|from_it)\b', b):
            todo += IMPLICIT_CMP
        if 'BSet_eq(' in b:
            todo.append('Tine_PartialEq_eq')
        # adapters over local iterators run their next/next_back
        for m in re.finditer(r'\btoit_(\w+)\(', b):
            todo += [m.group(1) + '_Iterator_next']
        # trait methods reached through the Finite bound are contracts on T
    return seen


def loop_vars_subst(text, f, n):
    """$TYPE names the innermost loop variable of that type; $TYPE@k the k-th from inside."""
    lp = next((l for l in f['loops'] if l['id'] == n), None)
    if lp is None:
        return None
    ok = [True]
    params = {p[0] for p in f['params']}

    def rep(m):
        ty, k = m.group(1), int(m.group(3) or 0)
        # innermost declaration of a name wins; parameters are not candidates
        c = [v for v, t in lp['vars'].items() if re.sub(r'<.*', '', t).strip() == ty and v not in params and v + '' not in params]
        c.reverse()
        if len(c) <= k:
            ok[0] = False
            return 'LOST_ANCHOR'
        return c[k]
    t = re.sub(r'\$([A-Za-z_]\w*)(@(\d+))?', rep, text)
    return t if ok[0] else None


def splice(f, c, k=0):
    """Body text with hints in place, or (None, reason). The annotations of another form of the
    function, or none if it has no loop left, are used where the first do not fit; k > 0 asks for
    the k-th set that fits rather than the first."""
    sets = c.variants + [c.hints]
    if not f['loops']:
        sets = sets + [{k: v for k, v in sets[0].items() if k[1] == 0}]
    first, asked = None, k
    for h in sets:
        body, why = splice_hints(f, h)
        if body is not None:
            if k == 0:
                return body, None
            k -= 1
        first = first or why
    if asked:
        return None, 'no other annotations fit'
    # no annotation fits the loops: try them as loops that go round at most twice
    if f['loops']:
        try:
            g = dict(f, body=unroll.unroll(f['body'], [l['id'] for l in f['loops']], 2, f['ret']), loops=[])
        except unroll.Cannot:
            return None, first
        body, why = splice_hints(g, {k: v for k, v in sets[0].items() if k[1] == 0})
        if body is not None:
            f['auto'] = first       # a proof that fails says nothing: nobody wrote annotations for this form
            return body, None
    return None, first


def splice_hints(f, hints):
    body = f['body']
    ids = {l['id'] for l in f['loops']}
    want = {k[1] for k in hints if k[0] == 'loop'}
    if ids != want:
        return None, f'loops {sorted(ids)} do not match the annotated loops {sorted(want)}'
    for text in hints.values():
        gone = [v for v in re.findall(r'\b(?:it|src|acc|out)_\d+\b', text) if not re.search(r'\b%s\b' % v, body)]
        if gone:
            return None, f'{gone[0]} is gone'
    for (k, n), text in hints.items():
        mark = f'/*@{k}*/' if n == 0 else f'/*@{k} {n}*/'
        if n:
            text = loop_vars_subst(text, f, n)
            if text is None:
                return None, f'loop {n}: a variable named by the invariant is gone'
        if k == 'ghost':
            # a snapshot taken just before the loop, where the loop stands as a statement
            at = body.find(f'loop /*@loop {n}*/')
            if at < 0 or body[:at].rstrip()[-1] not in ';{}/':
                return None, f'loop {n} is no statement'
            body = body[:at] + text.strip() + '\n' + body[at:]
            continue
        if k == 'loop':
            rep = '\n' + text.rstrip() + '\n'
        else:
            rep = '\nproof {\n' + text.rstrip() + '\n}\n'
        if mark not in body:
            if k in ('pre', 'post', 'body', 'end', 'loop'):
                return None, f'marker {mark} is gone'
        body = body.replace(mark, rep)
    return re.sub(r'/\*@[a-z]+( \d+)?\*/', '', body), None


def gsig(f):
    gs = []
    for g in f['generics']:
        b = []
        if g.get('finite'):
            b.append('Finite')
        if 'Fn' in g['bounds']:
            b.append(g['bounds'])
        gs.append(g['name'] + (': ' + ' + '.join(b) if b else ''))
    return '<' + ', '.join(gs) + '>' if gs else ''


def sig(f):
    ps = ', '.join(f'{a}: {b}' for a, b in f['params'])
    # lifetimes of returned borrows
    g = gsig(f)
    ret = f['ret']
    return f"pub fn {f['name']}{g}({ps})" + (f' -> (r: {ret})' if ret != '()' else '')


def theory_files():
    return [os.path.join(CON, x) for x in ('theory_raw.rs', 'theory_fin.rs', 'theory_tree.rs', 'theory_cut.rs', 'theory_iter.rs', 'theory_sel.rs', 'theory_text.rs', 'theory_props.rs') if os.path.exists(os.path.join(CON, x))]


def theory_prune(texts, lemmas, used_text):
    return texts


def strip_macros(s):
    return s


# local iterators handed on whole: item type, generics, state
ADAPT = {
    'tine_tree_IntoIter': ('RawInterval<T>', '', '<T>', 'X.saved_lower, X.inner@, X.saved_upper', 'pcs(itq(S))'),
    'tine_tree_Iter': ('RawInterval<T>', "'t, ", "<'t, T>", 'X.saved_lower, X.tine_iter@, X.saved_upper', 'pcs(itq(S))'),
    'IntoIntervalIter': ('Interval<T>', '', '<T>', 'X.0.saved_lower, X.0.inner@, X.0.saved_upper', 'ivs(norms(pcs(itq(S))))'),
    'IntervalIter': ('Interval<T>', "'t, ", "<'t, T>", 'X.0.saved_lower, X.0.tine_iter@, X.0.saved_upper', 'ivs(norms(pcs(itq(S))))'),
}


def adapter(x):
    item, g, args, st, sq = ADAPT[x]
    q = lambda v: sq.replace('S', st.replace('X', v))
    ok = lambda v: 'itok(' + st.replace('X', v) + ')'
    fin = ': Finite' if 'Interval' in x else ''
    return f'''// everything `{x}` still yields, in order
#[verifier::spinoff_prover]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn toit_{x}<{g}T{fin}>(x0: {x}{args}) -> (r: It<{item}>)
    requires {ok("x0")}
    ensures r@ == {q("x0")}
{{
    let mut x = x0;
    let mut v: Vec<{item}> = Vec::new();
    proof {{ assert(v@ + {q("x")} =~= {q("x0")}); }}
    loop
        invariant {ok("x")}, v@ + {q("x")} == {q("x0")}
        ensures {q("x")}.len() == 0
        decreases {q("x")}.len()
    {{
        let ghost before = {q("x")};
        let ghost v0 = v@;
        match {x}_Iterator_next(&mut x) {{
            None => break,
            Some(i) => {{ v.push(i); proof {{ assert({q("x")} =~= before.skip(1)); assert(v@ + {q("x")} =~= v0 + before); }} }},
        }}
    }}
    proof {{ assert(v@ + {q("x")} =~= v@); }}
    It_from_vec(v)
}}
'''


def assemble(ext, contracts, verify, lemmas=None, external=(), choice={}):
    """verify: names to verify; other contracted callees are assumed by contract.
    external: names forced to external_body (fallback). Returns (text, linemap, problems)."""
    fns = {f['name']: f for f in ext['fns']}
    problems = {}
    out = [HEAD % 'the current tree of /repo']
    out.append(open(os.path.join(CON, 'prelude.rs')).read())
    used_adts = True
    for a in ext['adts']:
        if a['unsupported']:
            problems['type ' + a['name']] = 'unsupported: ' + '; '.join(a['unsupported'])
        else:
            out.append(a['text'])
    for t in theory_files():
        out.append(open(t).read())
    text = '\n'.join(out) + '\n'
    linemap = []   # (start, end, fn)
    # which functions to print: the ones to verify and what they call
    need = list(verify)
    for n in verify:
        for c in cone(fns, contracts, [n])[1:]:
            if c not in need:
                need.append(c)
    texts_called = set()
    for n in need:
        f = fns.get(n)
        if f is None:
            continue
        c = contracts.get(n)
        body, why = None, None
        if c is None:
            why = 'no contract'
        elif f['unsupported']:
            why = 'unsupported: ' + '; '.join(f['unsupported'][:4])
        elif n in external:
            why = external[n] if isinstance(external, dict) else 'external'
        else:
            body, why = splice(f, c, choice.get(n, 0))
        if why:
            problems[n] = why
        start = text.count('\n') + 1
        spec = c.spec if c else ''
        head = f"// {f['path']} ({f['loc']})\n"
        if body is None or n not in verify:
            if re.search(r"UNSUPPORTED|\?\?", sig(f)):
                continue
            text += head + '#[verifier::external_body]\n' + sig(f) + '\n' + spec.rstrip() + '\n{ unimplemented!() }\n\n'
        else:
            at = '#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n'
            at += ''.join(f"#[verifier::rlimit({a.split('=')[1]})]\n" if a.startswith('#rlimit=') else '' for a in c.attrs)
            text += head + at + sig(f) + '\n' + spec.rstrip() + '\n' + body + '\n\n'
        linemap.append((start, text.count('\n') + 1, n))
    # adapters over local iterators: repeated next(), verified against its contract
    done = set()
    for x in sorted(set(re.findall(r'\btoit_(\w+)\(', text))):
        if x in ADAPT and re.search(r'\bfn %s_Iterator_next\b' % x, text) and x not in done:
            done.add(x)
            start = text.count('\n') + 1
            text += adapter(x) + '\n'
            linemap.append((start, text.count('\n') + 1, 'toit_' + x))
    text += '} // verus!\nfn main() {}\n'
    return text, linemap, problems


def run_verus(path, extra=(), timeout=800, threads=8):
    t = time.time()
    try:
        p = sh(['verus', path, '--output-json', '--time-expanded', '--multiple-errors', '5', '--num-threads', str(threads), *([] if '--rlimit' in extra else ['--rlimit', '30']), *extra], timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        return dict(rc=-1, json=None, err='verus timed out', wall=time.time() - t)
    j = None
    i = out.find('{')
    if i >= 0:
        try:
            j = json.loads(out[i:])
        except ValueError:
            pass
    return dict(rc=rc, json=j, err=err, wall=time.time() - t)


def parse_errors(err, path):
    """[(message, [lines])] for error blocks located in path."""
    blocks, cur = [], None
    for ln in err.splitlines():
        m = re.match(r'(error|warning|note)(\[\w+\])?: (.*)', ln)
        if m:
            cur = None
            if m.group(1) == 'error':
                cur = [m.group(3), [], [ln]]
                blocks.append(cur)
            continue
        if cur is not None:
            cur[2].append(ln)
            m = re.match(r'\s*(-->|:::) (.*?):(\d+):', ln)
            if m and os.path.basename(m.group(2)) == os.path.basename(path):
                cur[1].append(int(m.group(3)))
    return [b for b in blocks if not b[0].startswith('aborting due')]


def main(argv):
    contracts = load_contracts()
    ext = extract(contracts)
    fns = {f['name']: f for f in ext['fns']}
    os.makedirs(BUILD, exist_ok=True)
    if argv[0] == 'fn':
        names = [n for n in fns if any(re.fullmatch(a, n) for a in argv[1:]) and n in contracts]
    elif argv[0] == 'build':
        names = [n for n in contracts if n in fns]
    elif argv[0] == 'theory':
        names = []
    lost = [n for n in contracts if n not in fns]
    if lost:
        print('contracts without a function:', lost)
    text, lm, problems = assemble(ext, contracts, names)
    path = os.path.join(BUILD, 'all.rs')
    open(path, 'w').write(text)
    print('problems:', {k: v for k, v in problems.items() if k in names} )
    print('called without contract:', [k for k, v in problems.items() if v == 'no contract'])
    extra = argv[argv.index('--') + 1:] if '--' in argv else []
    r = run_verus(path, extra)
    if r['json']:
        print(r['json'].get('verification-results'))
        ts = r['json'].get('func-details') or {}
        tm = r['json'].get('times-ms', {})
        sm = tm.get('smt', {}).get('smt-run-module-times') or []
        fl = [(x.get('time', 0), x.get('rlimit'), x['function']) for m in sm for x in m.get('function-breakdown', [])]
        for t in sorted(fl, key=lambda z: -z[0])[:6]:
            print('  ', t)
    else:
        print('no json', r['rc'])
    bl = parse_errors(r['err'], path)
    for msg, lines, raw in bl[:12]:
        who = [n for a, b, n in lm if lines and a <= lines[0] <= b] or ['theory']
        print(f'--- [{who[0]}] {msg}')
        print('\n'.join(raw[1:16]))
    if not bl and r['rc'] != 0:
        print(r['err'][-3000:])
    print('wall', round(r['wall'], 1))


if __name__ == '__main__':
    main(sys.argv[1:])
