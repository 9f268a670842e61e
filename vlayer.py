"""The proof layer: extract the functions under contract from REPO/src, splice the contracts of
/verif/contracts into them, and let Verus decide every obligation.

run(prop, repo, tier) -> dict for check.py
"""
import hashlib, json, os, re, subprocess, tempfile, time, shutil
import extract

VERIF = os.path.dirname(os.path.abspath(__file__))
FILES = ['item.rs', 'lib.rs', 'queue/mod.rs', 'queue/buffered.rs', 'map.rs', 'cache/mod.rs', 'cache/page_states.rs', 'cache/page_pointers.rs', 'cache/key_pointers.rs']
CONTRACTS = ['item', 'lib', 'queue', 'buffered', 'map', 'cache', 'page_states', 'page_pointers', 'codec', 'key_pointers', 'drops']
HDR = '''use vstd::prelude::*;
use core::num::{NonZeroU32, NonZeroUsize};
use core::ops::{Deref, DerefMut, Range};
use core::marker::PhantomData;
use vstd::std_specs::cmp::PartialEqSpec;
'''
VAC = '''
verus! {
#[verifier::external_body]
pub fn vac_any<T>() -> (r: T) { unimplemented!() }
/// must fail: the axioms of the prelude would be contradictory otherwise
pub proof fn vacuity_probe() ensures false { assert(false); /*vacuity*/ }
}
'''
# functions the extraction itself splits up
KNOWN_NOCONTRACT = {'GenericStorage::get_pages'}
FLAGS = ['--edition', '2024', '--triggers-mode', 'silent', '--multiple-errors', '6', '--output-json', '--time-expanded']


def contracts():
    return extract.read_contracts([os.path.join(VERIF, 'contracts', c + '.vs') for c in CONTRACTS])


BUSE = 'broadcast use {up_props, down_props, word_al, nz_ext};\n'


def modname(f):
    return 'm_' + f.replace('.rs', '').replace('/', '_')


def generate(repo, force_lost=(), force_nospec=(), vacuity=False):
    cs = contracts()
    names = ['defs'] + [modname(f) for f in FILES]
    def use(me):
        return 'use super::super::prelude::*;\nuse super::{%s};\n' % ', '.join(n + '::*' for n in names if n != me) + HDR
    def modhead(f):
        return '} // verus!\n}\npub mod %s {\n%sverus! {\n%s' % (modname(f), use(modname(f)), BUSE)
    out, meta, raw = extract.extract(os.path.join(repo, 'src'), FILES, cs, force_lost=force_lost, force_nospec=force_nospec, vacuity=vacuity, modhead=modhead)
    head = open(os.path.join(VERIF, 'contracts', 'prelude.rs')).read() + '\npub mod code {\nuse super::prelude::*;\npub mod defs {\n' + use('defs') + (VAC if vacuity else '') \
        + 'verus! {\n' + BUSE + '\n'.join(''.join(x) for x in raw)
    off = head.count('\n')
    txt = head + ''.join(out.lines) + '\n} // verus!\n}\n} // mod code\nfn main() {}\n'
    spans = [(a + off, b + off, n) for a, b, n in out.fnspan]
    return txt, spans, out, meta, cs


def verus(txt, extra, timeout):
    d = tempfile.mkdtemp(prefix='vl')
    try:
        f = os.path.join(d, 'out.rs')
        open(f, 'w').write(txt)
        t = time.time()
        cmd = ['verus', f] + FLAGS + extra + ['--error-format=json']
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return None, [], time.time() - t, cmd
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            js = json.loads(r.stdout[r.stdout.index('{'):])
        except ValueError:
            js = None
        return js, diags, time.time() - t, ['verus', 'out.rs'] + cmd[2:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def owner(spans, line):
    for a, b, n in spans:
        if a <= line < b:
            return n
    return None


TAG = re.compile(r'//\s*@(C\d\d(?:,\s*C\d\d)*)')


def tags_of(lines, sp):
    """property tags of the clause a span lies in: the first tag on or below its last line, within the clause"""
    l = sp['line_end'] - 1
    m = TAG.search(lines[l]) if l < len(lines) else None
    return m.group(1).replace(' ', '').split(',') if m else []


def classify(diags, spans, lines, cs):
    """-> list of (function, message, tags, text, kind) for hard errors"""
    res = []
    for d in diags:
        if d.get('level') != 'error' or d['message'].startswith('aborting due to') or not d['spans']:
            continue
        prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
        here = [s for s in d['spans'] if s['file_name'].endswith('out.rs')]
        msg = d['message']
        clause, site = None, prim[0]
        for s in d['spans']:
            if s['label'] and 'failed' in s['label'] and ('condition' in s['label'] or 'invariant' in s['label']):
                clause = s
        if 'postcondition' in msg and clause is None:
            clause = prim[0]
        if 'postcondition' in msg:
            others = [s for s in d['spans'] if not s['is_primary'] and s['file_name'].endswith('out.rs')]
            fn = None
            for s in others:
                fn = fn or owner(spans, s['line_start'])
            fn = fn or owner(spans, clause['line_start'])
        elif 'precondition' in msg:
            fn = None
            for s in prim:
                if s['file_name'].endswith('out.rs'):
                    fn = fn or owner(spans, s['line_start'])
        else:
            fn = None
            for s in here:
                fn = fn or owner(spans, s['line_start'])
        t = []
        if clause is not None:
            if clause['file_name'].endswith('out.rs'):
                t = tags_of(lines, clause)
            elif 'precondition' in msg:
                t = ['C19']     # index in bounds, unwrap and the like
        if not t and ('overflow' in msg or 'underflow' in msg or 'division by zero' in msg):
            t = ['C19']
        if not t and fn in cs:
            t = cs[fn].props
        res.append((fn, msg, t, d['rendered'], d))
    return res


def fn_props(cs, spans, lines):
    """function -> properties its contract carries"""
    r = {}
    for n, c in cs.items():
        ps = set(c.props)
        for l in c.spec:
            m = TAG.search(l)
            if m:
                ps |= set(m.group(1).replace(' ', '').split(','))
        r[n] = ps
    return r


def run(prop, repo, tier):
    t0 = time.time()
    end = t0 + (400 if tier == 'quick' else 420)
    left = lambda cap: max(20, min(cap, end - time.time()))
    ver = subprocess.run(['verus', '--version'], stdout=subprocess.PIPE, text=True).stdout
    lost, nospec, why = {}, {}, []
    for attempt in range(6):
        try:
            txt, spans, out, meta, cs3 = generate(repo, lost, nospec)
        except extract.Lost as e:
            return {'status': 'undecided', 'why': ['extraction: %s' % e]}
        cs = cs3[0]
        lines = txt.split('\n')
        allspan = list(spans)
        js, diags, wall, cmd = verus(txt, ['--rlimit', '60' if tier == 'thorough' else '40', '--num-threads', '8'], left(300))
        if js is None:
            return {'status': 'undecided', 'why': ['verus gave no answer in time' if not diags else 'verus: ' + diags[0].get('message', '')[:200]]}
        vr = js['verification-results']
        if not vr.get('encountered-vir-error') and vr.get('verified', 0) + vr.get('errors', 0) > 0:
            break
        # the text does not compile: leave out the bodies (then the contracts) of the functions concerned
        new = False
        for d in diags:
            if d.get('level') != 'error':
                continue
            for s in d['spans']:
                n = owner(spans, s['line_start']) if s['file_name'].endswith('out.rs') else None
                if n is None:
                    continue
                if n not in lost and n not in out.lost:
                    lost[n] = 'does not compile in the verified text: ' + d['message'][:160]
                    new = True
                elif n not in nospec and s['is_primary']:
                    nospec[n] = 1
                    lost[n] = 'contract does not fit the function any more: ' + d['message'][:160]
                    new = True
        if not new:
            m = [d['message'] for d in diags if d.get('level') == 'error']
            return {'status': 'undecided', 'why': ['verified text does not compile: ' + '; '.join(m)[:300]]}
    else:
        return {'status': 'undecided', 'why': ['verified text does not compile']}
    lost.update(out.lost)
    errs = classify(diags, spans, lines, cs)
    if errs and not any(e[1].startswith('Resource') for e in errs):
        # a failure must not depend on the solver's luck
        js2, diags2, wall2, _ = verus(txt, ['--rlimit', '80', '--num-threads', '8', '--smt-option', 'smt.random_seed=11'], left(250))
        wall += wall2
        if js2 is not None and not js2['verification-results'].get('encountered-vir-error'):
            e2 = classify(diags2, spans, lines, cs)
            fns2 = {e[0] for e in e2}
            errs = [e for e in errs if e[0] in fns2]
    elif errs:
        js2, diags2, wall2, _ = verus(txt, ['--rlimit', '120', '--num-threads', '8', '--smt-option', 'smt.random_seed=11'], left(250))
        wall += wall2
        if js2 is not None and not js2['verification-results'].get('encountered-vir-error'):
            errs = classify(diags2, spans, lines, cs)
    newfns = {n for n in meta['nocontract']} - KNOWN_NOCONTRACT
    fresh = {n.split('::')[-1] for n in newfns}
    props = fn_props(cs, spans, lines)
    uncertain = set(lost) | newfns
    unc_short = {n.split('::')[-1] for n in set(nospec)} | fresh
    body_text = {}
    for a, b, n in spans:
        body_text[n] = body_text.get(n, '') + '\n'.join(lines[a - 1:b])
    hard, soft = [], []
    for fn, msg, t, ren, d in errs:
        if fn is None or fn in uncertain or msg.lower().startswith(('resource limit', 'rlimit')) or 'resource limit' in msg.lower() or 'rlimit' in msg.lower():
            soft.append((fn, msg, t, ren))
        elif unc_short and re.search(r'\b(%s)\s*(::<[^>]*>)?\(' % '|'.join(map(re.escape, unc_short)), body_text.get(fn, '')):
            soft.append((fn, msg + ' (calls a function without contract)', t, ren))
        else:
            hard.append((fn, msg, t, ren))
    mine = {n for n in cs if prop in props[n] and n in set(meta['functions'])}
    failed = [h for h in hard if prop in h[2]]
    und = [(fn, msg) for fn, msg, t, ren in soft if prop in t or fn is None or prop in props.get(fn, ())]
    und += [(n, lost[n]) for n in lost if prop in props.get(n, ())]
    und += [(n, 'a function without contract') for n in newfns if any(prop in props.get(f, ()) and re.search(r'\b%s\s*(::<[^>]*>)?\(' % re.escape(n.split('::')[-1]), body_text.get(f, '')) for f in mine)] if False else []
    trusted_fns = [n for n in cs if cs[n].trusted]
    # SMT queries of this run
    q = []
    smt = 0.0
    for m in js['times-ms']['smt']['smt-run-module-times']:
        for f in m.get('function-breakdown', []):
            q.append(f)
            smt += f.get('time-micros', 0) / 1e6
    lemmas = [f for f in q if f.get('mode:', f.get('mode')) == 'proof']
    execs = [f for f in q if f not in lemmas]
    bad = {fn for fn, *_ in errs}
    good = [n for n in sorted(mine) if n not in bad and n not in lost and not cs[n].trusted]
    clauses = lambda n: max(1, sum(1 for l in cs[n].spec if TAG.search(l) and prop in TAG.search(l).group(1)))
    obligations = sum(clauses(n) for n in mine if not cs[n].trusted) + len(lemmas)
    discharged = sum(clauses(n) for n in good) + len([f for f in lemmas if f.get('success')])
    vac = vacuity(repo, tier) if end - time.time() > 60 else {'run': 'no time'}
    tb = []
    for w, kind in ((r'#\[verifier::external_body\]', 'trusted'), (r'\bassume_specification\b', 'assumed contract of a library function'), (r'\badmit\(\)', 'admit'), (r'\bassume\(', 'assume'), (r'\baxiom fn\b', 'axiom')):
        for i, l in enumerate(lines):
            if re.search(w, l):
                nm = ''
                for k in range(i, min(i + 4, len(lines))):
                    mm = re.search(r'(?:fn\s+(\w+)|struct\s+(\w+)|assume_specification.*?\[\s*(.*?)\s*\])', lines[k])
                    if mm:
                        nm = mm.group(1) or mm.group(2) or mm.group(3)
                        break
                tb.append('%s: %s' % (kind, nm))
    tb = sorted(set(tb))
    tb += ['NorFlash trait contract: what a driver obeying embedded-storage-async does (prelude.rs)', 'extraction rewrites: ' + ', '.join(sorted(meta['rewrites'])), 'not extracted: ' + ', '.join(sorted(set(meta['dropped']))),
           'Verus %s, Z3, rustc' % (re.search(r'Version: (\S+)', ver).group(1) if re.search(r'Version: (\S+)', ver) else '')]
    res = {'obligations': obligations, 'discharged': discharged, 'checker_cmd': ' '.join(cmd), 'trusted_base': tb,
           'functions_under_contract': sorted(mine), 'smt_time_s': round(smt, 2), 'verus_wall_s': round(wall, 1), 'backend': 'Verus / Z3 (SMT)',
           'smt_queries': len(q), 'verus_verified_items': js['verification-results']['verified'], 'verus_errors': js['verification-results']['errors'],
           'lemmas': len(lemmas), 'vacuity_checks': vac, 'generated_text_sha256': hashlib.sha256(txt.encode()).hexdigest(), 'generated_lines': len(lines)}
    if failed:
        res['status'] = 'failed'
        res['failed'] = ['%s: %s' % (fn, msg) for fn, msg, *_ in failed]
        res['report'] = '\n'.join('in %s\n%s' % (fn, ren) for fn, msg, t, ren in failed)
    elif und:
        res['status'] = 'undecided'
        res['why'] = ['%s: %s' % x for x in und]
    elif vac.get('ok') is False:
        res['status'] = 'undecided'
        res['why'] = ['vacuity check']
    else:
        res['status'] = 'ok' if obligations and obligations == discharged else 'undecided'
        if res['status'] != 'ok':
            res['why'] = ['%d of %d obligations' % (discharged, obligations)] + sorted(str(b) for b in bad if prop in props.get(b, ()))[:5]
    return res


def vacuity(repo, tier):
    """every contract's precondition must be satisfiable as far as Verus can tell: with the body replaced by
    assert(false), each function has to fail at it"""
    try:
        txt, spans, out, meta, cs3 = generate(repo, vacuity=True)
    except extract.Lost:
        return {'run': 'no'}
    js, diags, wall, cmd = verus(txt, ['--rlimit', '10', '--num-threads', '8'], 300)
    if js is None or js['verification-results'].get('encountered-vir-error'):
        return {'run': 'no answer'}
    lines = txt.split('\n')
    want = {i + 1 for i, l in enumerate(lines) if '/*vacuity*/' in l}
    got = set()
    for d in diags:
        if d.get('level') == 'error':
            for s in d['spans']:
                got.add(s['line_start'])
    silent = sorted(str(owner(spans, l)) for l in want - got)
    return {'run': 'yes', 'probes': len(want), 'failed_as_they_must': len(want & got), 'silent': silent, 'ok': True if not silent else False, 'wall_s': round(wall, 1)}


if __name__ == '__main__':
    import sys
    r = run(sys.argv[1], os.environ.get('SQS_REPO', '/repo'), sys.argv[2] if len(sys.argv) > 2 else 'quick')
    print(json.dumps(r, indent=1))
