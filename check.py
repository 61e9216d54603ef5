#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source.

1. vx-extract lowers the functions of /repo/src mechanically into Verus input, together with the contracts
   in /verif/contracts; Verus discharges every obligation (no bound).
2. vx-driver, built against /repo, searches for inputs on which the real code breaks the property. It replays
   what a failed obligation stands for, and it is the bounded stand-in for whatever the verifier could not take.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself could not run.
"""
import json, os, re, subprocess, sys, threading, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
ENV.setdefault('HOME', '/root')
for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_BUILD_TARGET_DIR', 'VX_DICT'):
    ENV.pop(k, None)


def sh(cmd, timeout, cwd=VERIF, env=None):
    """(rc or None on timeout, stdout, stderr); the whole process group is ended on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


def die(msg):
    print('check error: ' + msg)
    sys.exit(2)


# ---------------------------------------------------------------- builds

def build_extractor():
    rc, _, e = sh(['cargo', 'build', '--release', '--offline', '--locked'], 600, VERIF + '/extract')
    if rc != 0:
        die('the extractor does not build\n' + e[-3000:])


def build_driver(profile, out):
    # cargo compares time stamps only: never trust a previous build of the crate under test
    d = f'{VERIF}/driver/target/{profile}/.fingerprint'
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith('baa-') or f.startswith('vx-driver-'):
                subprocess.run(['rm', '-rf', f'{d}/{f}'])
    rc, _, e = sh(['cargo', 'build', '--profile', profile, '--offline', '--locked'], 600, VERIF + '/driver')
    out[profile] = (rc, e)


# ---------------------------------------------------------------- deduction

LOOPS = re.compile(r'\b(?:break|continue)\b|\b(?:for|while|loop)\b[^{}]*\{|\.(?:any|all|for_each|fold|map|find|position|max_by_key|retain)\(')


def shape(norm):
    return LOOPS.findall(norm or '')


def where_of(mp, line):
    for f in mp['functions']:
        if f['emit'][0] <= line <= f['emit'][1]:
            return f
    return None


class Proof:
    """one extraction and verification of the current tree"""

    def __init__(self, work):
        self.work = work
        self.drops = {}
        self.map = None
        self.fatal = None       # the verifier could not be used at all
        self.failed = {}        # function id -> [messages]
        self.weak = {}          # function id -> reason (no judgement possible)
        self.other = {}         # failing lemma -> message
        self.regained = 0       # proved by another seed of the solver only
        self.res = None
        self.cmd = ''
        self.log = ''
        self.canary = False
        self.rounds = 0

    def extract(self):
        a = [VERIF + '/extract/target/release/vx-extract', REPO + '/src', VERIF + '/contracts', self.work, '--baseline', VERIF + '/baseline.json']
        for k, v in self.drops.items():
            a += ['--drop', f'{k}={v}']
        rc, o, e = sh(a, 120)
        if rc != 0:
            self.fatal = 'the extractor does not understand the source: ' + (e or o)[-600:]
            return False
        self.map = json.load(open(self.work + '/map.json'))
        with open(self.work + '/lib.rs', 'a') as f:
            f.write('\n' + open(VERIF + '/contracts/canary.inc').read())
        return True

    def verus(self, rlimit):
        lib = self.work + '/lib.rs'
        a = ['verus', lib, '--triggers-mode', 'silent', '--num-threads', '8', '--output-json', '--time-expanded', '--multiple-errors', '3', '--rlimit', str(rlimit)]
        self.cmd = ' '.join(a).replace(self.work, '$WORK')
        rc, o, e = sh(a, max(60, min(300, 520 - (time.time() - T0))) if TIER == 'quick' else 2000, self.work)
        self.log = e
        if rc is None:
            return False
        try:
            self.res = json.loads(o[o.index('{'):])
        except ValueError:
            self.res = None
        return True

    def again(self):
        """other seeds of the solver: a proof found in any of the runs is a proof"""
        from concurrent.futures import ThreadPoolExecutor
        try:
            mods = sorted({m['module'] for m in self.res['times-ms']['smt']['smt-run-module-times'] for f in m['function-breakdown'] if not f['success']})
        except (TypeError, KeyError):
            return
        sel = [x for m in mods for x in (['--verify-root'] if m in ('', 'lib') else ['--verify-only-module', m[5:] if m.startswith('lib::') else m])]
        secs = max(30, min(150, 600 - (time.time() - T0))) if TIER == 'quick' else 900

        def one(seed):
            a = ['verus', self.work + '/lib.rs', '--triggers-mode', 'silent', '--num-threads', '3', '--multiple-errors', '3', '--rlimit', '40' if TIER == 'quick' else '150',
                 '--smt-option', f'smt.random_seed={seed}', '--smt-option', f'sat.random_seed={seed}'] + sel
            return sh(a, secs, self.work)
        with ThreadPoolExecutor(3) as ex:
            runs = list(ex.map(one, (7, 11, 23)))
        before = len(self.failed) + len(self.weak) + len(self.other)
        for rc, o, e in runs:
            if rc is None or 'verification results::' not in o + e:
                continue
            failed, weak, other, _ = self.sort_out(self.errors(e))
            bad = set(failed) | set(weak)
            # a refutation weighs more than an exhausted budget
            for i in failed:
                if i in self.weak:
                    self.failed[i] = failed[i]
                    del self.weak[i]
            self.failed = {i: t for i, t in self.failed.items() if i in bad}
            self.weak = {i: t for i, t in self.weak.items() if i in bad}
            self.other = {i: t for i, t in self.other.items() if i in other}
        self.regained = before - (len(self.failed) + len(self.weak) + len(self.other))

    def sort_out(self, errs):
        failed, weak, other, canary = {}, {}, {}, False
        for m, lines, text in errs:
            first = lines[0] if lines else 0
            f = where_of(self.map, first)
            # the position of a failed postcondition may be in the contract of a trait: look at all lines
            if f is None or f['status'] == 'trait_sig':
                f = next((g for g in (where_of(self.map, l) for l in lines) if g and g['status'] != 'trait_sig'), f)
            if 'vx_canary' in text:
                canary = True
            elif f is None:
                other[self.lemma_at(first)] = text
            elif 'esource limit' in m or 'rlimit' in m:
                weak.setdefault(f['id'], 'resource limit exceeded')
            else:
                failed.setdefault(f['id'], []).append(text)
        for i in failed:
            weak.pop(i, None)
        return failed, weak, other, canary

    def lemma_at(self, line):
        ls = open(self.work + '/lib.rs').read().split('\n')[:line]
        for l in reversed(ls):
            m = re.search(r'\bfn\s+(\w+)', l)
            if m:
                return m.group(1)
        return '?'

    def errors(self, log=None):
        """[(message, [lines], text)]"""
        r = []
        for b in re.split(r'\n(?=(?:error|warning|note)\b)', '\n' + (self.log if log is None else log)):
            b = b.strip('\n')
            if not b.startswith('error') or b.startswith('error: aborting'):
                continue
            r.append((b.split('\n')[0], [int(x) for x in re.findall(r'lib\.rs:(\d+):\d+', b)] +
                      [int(x) for x in re.findall(r'^\s*(\d+)\s+[|/]', b, re.M)], b))
        return r

    def run(self):
        hung = False
        for self.rounds in range(1, 14):
            if not self.extract():
                return
            if not self.verus(15):
                # leave out everything that changed, once
                n = len(self.drops)
                if not hung:
                    self.drop_changed('changed, and the verifier does not finish')
                hung = True
                if len(self.drops) == n:
                    self.fatal = 'the verifier did not finish'
                    return
                continue
            v = (self.res or {}).get('verification-results')
            hard = v is None or v.get('encountered-vir-error') or (v.get('verified', 0) == 0)
            errs = self.errors()
            if hard:
                # the text of some function is outside of the verifier's language: leave those out
                n = len(self.drops)
                for m, lines, _ in errs:
                    for l in lines[:1] + lines[1:]:
                        f = where_of(self.map, l)
                        if f and f['id'] not in self.drops and not (f['outlined'] and f['status'] == 'out_of_reach'):
                            self.drops[f['id']] = 'rejected by the verifier front end: ' + m[:160]
                            break
                if len(self.drops) == n:
                    # nothing to blame: leave out everything that changed, then give up
                    self.drop_changed('changed, and the verifier front end stops without a position')
                if len(self.drops) == n:
                    self.fatal = 'the verifier front end rejects the extracted text: ' + (errs[0][2] if errs else self.log)[:800]
                    return
                continue
            # verification errors
            self.failed, self.weak, self.other, self.canary = self.sort_out(errs)
            if self.failed or self.weak or self.other:
                self.again()
            return
        self.fatal = self.fatal or 'too many functions are outside of the verifier language'

    def drop_changed(self, why):
        for f in self.map['functions']:
            if (f['changed'] or f['new'] or f['inline_failed']) and f['id'] not in self.drops and f['status'] != 'trait_sig':
                self.drops[f['id']] = why

    def fn(self, i):
        return next(f for f in self.map['functions'] if f['id'] == i)


def untouched(P, base):
    """functions whose text, and all it is checked against, is what the contracts were written for"""
    if set(base.get('items', [])) - set(P.map['items']):
        return set()
    norm = {f['id']: f['norm'] for f in P.map['functions'] + P.map['not_emitted']}
    same = {i for i, n in norm.items() if i in base and base[i]['norm'] == n}
    return {f['id'] for f in P.map['functions'] if f['id'] in same and sorted(base[f['id']].get('inlined', [])) == sorted(f['inlined'])
            and all(h in same for h in f['inlined']) and not f['inline_failed']}


def judge(P, base):
    """per function: 'proved' | 'failed' | 'bounded' with a reason"""
    st = {}
    calm = untouched(P, base)
    # the verifier is modular: what was proved before and did not change cannot fail because of a change elsewhere
    confused = bool([i for i in P.failed if i in calm] or (P.other and calm))
    for f in P.map['functions']:
        if f['status'] == 'trait_sig':
            continue
        i = f['id']
        b = base.get(i)
        if f['status'] == 'trusted':
            st[i] = ('trusted', 'contract assumed')
        elif f['outlined']:
            st[i] = ('bounded', f['reason'] or 'outside of the verifier language')
        elif i in P.weak:
            st[i] = ('bounded', P.weak[i])
        elif i in P.failed:
            why = None
            if i in calm or confused:
                why = 'the verifier loses proofs of unchanged functions in this run: ' + ', '.join([x for x in P.failed if x in calm][:4])
            elif b is None:
                why = 'a function without a proof of its own'
            elif f['lost']:
                why = 'annotations lost their place: ' + '; '.join(map(str, f['lost']))[:300]
            elif f['renames']:
                why = 'its proof had to be guessed for renamed variables: ' + ', '.join(f'{a}->{b}' for a, b in f['renames'].items())[:200]
            elif f['inline_failed']:
                why = 'calls helpers that have no contract: ' + ', '.join(map(str, f['inline_failed']))[:300]
            elif b and shape(b['norm']) != shape(f['norm']):
                why = 'its loops were rewritten, the loop invariants were written for others'
            elif b and sorted(b.get('inlined', [])) != sorted(f['inlined']):
                why = 'calls other helpers than those its proof was written for'
            elif any(d in P.drops for d in f['inlined']):
                why = 'uses a function outside of the verifier language'
            st[i] = ('bounded', why) if why else ('failed', P.failed[i][0])
        else:
            st[i] = ('proved', '')
    return st


# ---------------------------------------------------------------- search

def literals(root):
    """number of occurrences of every number and byte literal outside of tests"""
    r = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.rs'):
                t = open(os.path.join(d, f), errors='replace').read()
                t = t.split('#[cfg(test)]')[0]
                for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?!\w)', t):
                    try:
                        v = int(m.group(1).replace('_', ''), 0 if m.group(1)[:2] in ('0x', '0b', '0o') else 10)
                    except ValueError:
                        continue
                    if 0 <= v < 1 << 64:
                        r[v] = r.get(v, 0) + 1
                # sizes written in other ways
                for m in re.finditer(r'\b1(?:[ui]\w+)?\s*<<\s*(\d+)', t):
                    if int(m.group(1)) < 64:
                        r[1 << int(m.group(1))] = r.get(1 << int(m.group(1)), 0) + 1
                for m in re.finditer(r'(?:\bas\s+|\b)([ui])(8|16|32|64)\b(?:::(MAX|MIN|BITS))?', t):
                    k = int(m.group(2)) - (m.group(1) == 'i')
                    for v in {'BITS': [int(m.group(2))], 'MAX': [(1 << k) - 1], 'MIN': [1 << k]}.get(m.group(3), [1 << k] if m.group(0).startswith('as') else []):
                        if v < 1 << 64:
                            r[v] = r.get(v, 0) + 1
                for m in re.finditer(r"b'(.)'", t):
                    r[ord(m.group(1))] = r.get(ord(m.group(1)), 0) + 1
    return r


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Search:
    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.fail = None
        self.runs = []
        self.known = {}
        self.broken = None

    def bin(self, profile):
        return f'{VERIF}/driver/target/{profile}/vx-driver'

    def env(self):
        base = {int(k): v for k, v in json.load(open(VERIF + '/literals.json')).items()}
        new = sorted(k for k, v in literals(REPO + '/src').items() if v > base.get(k, 0))[:40]
        e = dict(ENV)
        if new:
            e['VX_DICT'] = ','.join(map(str, new))
        return e, new

    def one(self, profile, seed, case, env):
        p = subprocess.run([self.bin(profile), 'one', self.prop, str(seed), str(case)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace', timeout=40, preexec_fn=limits)
        return p.returncode, p.stdout

    def go(self, profile, seed, secs):
        env, new = self.env()
        st = f'{self.work}/state'
        a = [self.bin(profile), 'search', self.prop, str(seed), str(secs), st]
        p = subprocess.Popen(a, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=limits)
        try:
            o, e = p.communicate(timeout=secs + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        try:
            j = json.loads(o)
        except ValueError:
            # the process died: one of the cases in flight did it
            raw = open(st, 'rb').read()
            for k in range(0, len(raw) - 7, 8):
                c = int.from_bytes(raw[k:k + 8], 'little')
                try:
                    rc, out = self.one(profile, seed, c, env)
                except subprocess.TimeoutExpired:
                    rc, out = 1, 'no answer'
                if rc != 0:
                    self.fail = dict(profile=profile, seed=seed, case=c, error=f'the process ended with {rc}', text=out, dict=env.get('VX_DICT', ''))
                    return
            self.broken = f'driver ended with {p.returncode}: {(e or o)[-400:]}'
            return
        self.runs.append(dict(profile=profile, seed=seed, cases=j['cases'], evaluations=j['evaluations'], distinct=j['distinct'], wall=j['wall'], samples=j['samples'], dictionary=new))
        for k, c in j['known']:
            self.known.setdefault(k, (profile, seed, c))
        if j['fail']:
            c = j['fail']['case']
            try:
                rc, out = self.one(profile, seed, c, env)
            except subprocess.TimeoutExpired:
                rc, out = 1, 'no answer within 40 s'
            if rc == 0 and not j['fail']['error'].startswith('no answer'):
                # not reproducible alone: hash order
                out += '\n(passed when repeated: depends on the iteration order of a hash table)'
            if rc == 0 and j['fail']['error'].startswith('no answer'):
                self.runs[-1]['note'] = 'a case was slow once, and passed when repeated'
                return
            self.fail = dict(profile=profile, seed=seed, case=c, error=j['fail']['error'], text=out, dict=env.get('VX_DICT', ''))


def write_replay(prop, name, text):
    d = VERIF + '/work/replay'
    os.makedirs(d, exist_ok=True)
    p = f'{d}/{prop}-{name}.txt'
    open(p, 'w').write(text)
    return p


# ---------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    manifest = json.load(open(VERIF + '/MANIFEST.json'))
    me = next(c for c in manifest['checks'] if c['property'] == prop)
    level = me['level']
    work = f'{VERIF}/work/{prop}'
    subprocess.run(['rm', '-rf', work])
    os.makedirs(work)
    built = {}
    ths = [threading.Thread(target=lambda: [build_driver(p, built) for p in ('checked', 'release')])]
    ths[0].start()
    build_extractor()
    P = Proof(work)
    P.run()
    ths[0].join()
    base = json.load(open(VERIF + '/baseline.json'))
    for p, (rc, e) in built.items():
        if rc != 0:
            die(f'/repo does not build for the driver ({p})\n{e[-3000:]}')
    st = judge(P, base) if P.map and not P.fatal else {}
    mine = {f['id']: f for f in (P.map['functions'] if P.map else []) if prop in f['props'] and f['status'] != 'trait_sig'}
    missing = [m for m in (P.map['missing'] if P.map else [])]
    failed = {i: st[i][1] for i in mine if i in st and st[i][0] == 'failed'}
    notproved = {i: st[i][1] for i in mine if i in st and st[i][0] == 'bounded'}
    trouble = bool(P.fatal or failed or notproved or any(s[0] in ('failed', 'bounded') for s in st.values()))
    # search: longer when something could not be proved
    S = Search(prop, work)
    if TIER == 'thorough':
        secs = 120
    else:
        secs = 35 if trouble else (6 if level == 'proof' else 15)
    for profile, seed in (('checked', SEED), ('release', SEED + 1000003)):
        S.go(profile, seed, secs)
        if S.fail:
            break
    known = json.load(open(VERIF + '/known_findings.json'))
    kn = {k['signature']: k for k in known['known'] if k['property'] == prop}
    unlisted = [k for k in S.known if k not in kn]
    rc = 0
    lines = []
    if S.fail:
        f = S.fail
        t = [f'property {prop}', f'failing input found by the driver (profile {f["profile"]})', '', f['text'], '', f'error: {f["error"]}', '',
             f'replay: VX_DICT={f["dict"]} {S.bin(f["profile"])} one {prop} {f["seed"]} {f["case"]}', '']
        for i, m in failed.items():
            t += [f'failed obligation in {i} ({mine[i]["file"]}:{mine[i]["line"]})', m, '']
        lines.append(f'VIOLATION property={prop} replay={write_replay(prop, "input", chr(10).join(t))}')
        rc = 1
    elif unlisted:
        k = unlisted[0]
        pr, sd, c = S.known[k]
        lines.append(f'VIOLATION property={prop} replay={write_replay(prop, "input", k + chr(10) + f"replay: {S.bin(pr)} one {prop} {sd} {c}")}')
        rc = 1
    elif failed:
        t = [f'property {prop}: the verifier refutes an obligation; no failing input was found by the search', '']
        for i, m in failed.items():
            t += [f'failed obligation in {i} ({mine[i]["file"]}:{mine[i]["line"]}, contract {mine[i]["where"]})', '\n'.join(P.failed[i]), '']
        t += ['command: ' + P.cmd]
        lines.append(f'VIOLATION property={prop} replay={write_replay(prop, "obligation", chr(10).join(t))} no-failing-input-found')
        rc = 1
    for k in S.known:
        if k in kn:
            lines.append(f'KNOWN-FINDING: property={prop} {k}')
    if S.broken and rc == 0:
        die(S.broken)
    sampled = sample_assumptions(S)
    # ------------------------------------------------------------ evidence
    v = (P.res or {}).get('verification-results') or {}
    smt = 0
    per_fn = {}
    try:
        for m in P.res['times-ms']['smt']['smt-run-module-times']:
            for f in m['function-breakdown']:
                per_fn[f['function']] = (f['time-micros'] / 1e6, f['success'])
                smt += f['time-micros'] / 1e6
    except (TypeError, KeyError):
        pass
    lib = open(work + '/lib.rs').read() if os.path.exists(work + '/lib.rs') else ''
    trusted = trusted_base(lib)
    nver, nerr = v.get('verified', 0), max(0, v.get('errors', 0) - (1 if P.canary else 0))
    nver, nerr = nver + min(P.regained, nerr), nerr - min(P.regained, nerr)
    if P.map and not P.fatal and not P.canary and rc == 0:
        die('the vacuity canary was accepted: the assumptions are inconsistent\n' + P.log[-1000:])
    if level == 'proof' and not P.fatal and nver == 0 and rc == 0:
        die('no obligation was generated')
    proved = [i for i in mine if i in st and st[i][0] == 'proved']
    cov = {
        'functions_under_contract': len(proved),
        'functions': [{'id': i, 'at': f'{mine[i]["file"]}:{mine[i]["line"]}', 'state': st.get(i, ('bounded', P.fatal))[0], **({'why': st[i][1][:300]} if i in st and st[i][1] else {})} for i in sorted(mine)],
        'all_functions_proved_in_run': sum(1 for s in st.values() if s[0] == 'proved'),
        'obligations': nver + nerr,
        'discharged': nver,
        'back_end': 'Verus 0.2026.09.13 (Z3 bundled)',
        'discharged_with_another_solver_seed': P.regained,
        'solver_seconds': round(smt, 2),
        'checker_cmd': P.cmd,
        'trusted_base': trusted,
        'bounded_stand_ins': {i: (w or '')[:300] for i, w in notproved.items()},
        'not_in_reach': P.fatal or '',
        'callees_not_proved': {i: s[1][:200] for i, s in st.items() if s[0] in ('failed', 'bounded') and i not in mine},
        'contracts_without_function': missing,
        'extraction_drops': P.drops,
        'evaluations': sum(r['evaluations'] for r in S.runs),
        'distinct_nontrivial': sum(r['distinct'] for r in S.runs),
        'rule': 'search cases: random and boundary-biased operands of widths 1..4200 in owned/borrowed/mutable form, checked against bit-level or big-integer references; distinct by operand contents (counted up to 1e6 per thread), non-trivial when at least one comparison with the reference was made',
        'samples': [s for r in S.runs for s in r['samples']][:4],
        'search': [{k: r[k] for k in ('profile', 'seed', 'cases', 'evaluations', 'distinct', 'wall', 'dictionary')} for r in S.runs],
        'canary_refuted': P.canary,
        'assumed_contracts_sampled': sampled,
    }
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + [f'known finding: {k}' for k in S.known if k in kn],
          'wall_s': round(time.time() - T0, 1), 'violations': 1 if rc else 0}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop}: {len(proved)}/{len(mine)} functions of this property proved, {nver}/{nver + nerr} obligations discharged in the crate, '
          f'{cov["evaluations"]} search evaluations, {time.time() - T0:.0f} s')
    for i, w in notproved.items():
        print(f'  bounded only: {i}: {w}')
    if P.fatal:
        print('  bounded only (verifier not applicable): ' + P.fatal[:300])
    for l in lines:
        print(l)
    sys.exit(rc)


def sample_assumptions(S):
    """the assumed contracts of std and the dependencies, tried on real inputs (bounded, never counted as proved)"""
    try:
        p = subprocess.run([S.bin('release'), 'trust', str(SEED), '20' if TIER == 'thorough' else '1'], env=ENV, capture_output=True, text=True, errors='replace', timeout=120, preexec_fn=limits)
    except (OSError, subprocess.TimeoutExpired) as e:
        return {'not run': 0, 'why': str(e)[:200]}
    if p.returncode == 1 and p.stderr.strip():
        die('an assumed contract of a dependency is wrong: ' + p.stderr.strip()[-400:])
    try:
        return json.loads(p.stdout)
    except ValueError:
        return {'not run': 0, 'why': p.stderr[-200:]}


ASSUME = [
    'Verus, its encoding and the Z3 it bundles are sound; vstd specifications of std (Vec, slices, HashMap, String, Option, integer methods) are right',
    'vx-extract lowers Rust to the Verus subset faithfully (its rewrite rules are listed in DESIGN.md); attributes, debug formatting, tests and debug_assert! text are dropped',
    'machine integers are machine integers: every arithmetic operation carries an overflow obligation; no unbounded arithmetic is assumed in code',
    '64-bit usize',
]


def trusted_base(lib):
    r = []
    for m in re.finditer(r'assume_specification\s*(?:<[^>]*>)?\s*\[\s*(.+?)\s*\]\s*\(', lib):
        r.append('assumed specification of ' + re.sub(r'\s+', '', m.group(1)))
    for m in re.finditer(r'external_body\)?\]?[^{;]*?\b(fn|struct)\s+(\w+)', lib):
        r.append(f'external_body {m.group(1)} {m.group(2)}')
    for m in re.finditer(r'\baxiom fn (\w+)', lib):
        r.append('axiom ' + m.group(1))
    for m in re.finditer(r'external_type_specification[^;{]*?struct\s+(\w+)', lib):
        r.append('external type ' + m.group(1))
    n = len(re.findall(r'\b(?:assume|admit)\s*\(', lib))
    r.append(f'{n} assume/admit statements')
    return sorted(set(r))


main()
