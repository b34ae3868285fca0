"""Verus back end: verifies functions of /repo, extracted textually on every run, against the contracts in verus/<name>.rs.

A specification file consists of sections introduced by lines starting with `//@`:
  //@ prelude                      Verus items (specs, lemmas, trusted helpers with contracts)
  //@ source PATH const|enum NAMES items copied from PATH
  //@ impl PATH HEADER             the methods listed below are taken from this impl block of PATH
  //@ free PATH                    the functions listed below are free functions of PATH
  //@ subst REGEX ==> TEXT         textual substitution in the function bodies (reported in the evidence)
  //@ lift FN CLOSURE PARAM ARG     `let CLOSURE = |args| {..};` in FN becomes a function with the captured variable
                                   as first parameter PARAM; calls pass ARG for it
  //@ literals                      at the start of every function and every loop: reveal the string literals of its body
  //@ fn NAME [trusted]            contract of a function (requires/ensures), up to the next section
  //@ loop NAME K                  invariants of the K-th loop of NAME
  //@ proof NAME start|loop K start|loop K end|before loop K   ghost code inserted at that place
"""
import os, re, subprocess, time
import extract
from extract import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def strip(t):
    """comments out, strings and chars kept"""
    out, i = [], 0
    while i < len(t):
        if t.startswith('//', i):
            while i < len(t) and t[i] != '\n':
                i += 1
            continue
        if t.startswith('/*', i):
            j = t.find('*/', i)
            i = j + 2 if j >= 0 else len(t)
            continue
        m = re.match(r"b?'(\\x..|\\u\{[^}]*\}|\\.|[^\\'])'", t[i:])
        if m:
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        if t[i] == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == '\\' else 1
            out.append(t[i:j + 1])
            i = j + 1
            continue
        out.append(t[i])
        i += 1
    return ''.join(out)


def match(t, i, o='{', c='}'):
    """index after the bracket closing the one at i"""
    d = 0
    while i < len(t):
        m = re.match(r"b?'(\\x..|\\u\{[^}]*\}|\\.|[^\\'])'", t[i:])
        if m:
            i += len(m.group(0))
            continue
        if t[i] == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == '\\' else 1
            i += 1
            continue
        if t[i] == o:
            d += 1
        if t[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise extract.ExtractError('unbalanced source')


def functions(t):
    """name -> (signature, body) of the functions at the top level of the text t"""
    r, i = {}, 0
    for m in re.finditer(r'(?:pub(?:\([^)]*\))? )?(?:const )?(?:unsafe )?fn (\w+)', t):
        if m.start() < i:
            continue
        b = t.index('{', m.end())
        semi = t.find(';', m.end())
        if 0 <= semi < b:
            continue
        e = match(t, b)
        r[m.group(1)] = (t[m.start():b].strip(), t[b:e])
        i = e
    return r


def parse(path):
    secs, cur = [], None
    for l in open(path):
        if l.startswith('//@ '):
            cur = [l[4:].strip(), '']
            secs.append(cur)
        elif cur is not None:
            cur[1] += l
    return secs


def loops(body):
    """positions of the opening braces of the loops of a body, in order"""
    r = []
    body = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + ' ' * (len(m.group(0)) - 2) + '"', re.sub(r"b?'(?:\\x..|\\u\{[^}]*\}|\\.|[^\\'])'", lambda m: '0' * len(m.group(0)), body), flags=re.S)
    for m in re.finditer(r"\b(while|loop|for)\b", body):
        # the block of the loop: first `{` at bracket depth 0
        i, d = m.end(), 0
        while True:
            if body[i] in '([':
                d += 1
            elif body[i] in ')]':
                d -= 1
            elif body[i] == '{' and d == 0:
                break
            i += 1
        r.append((m.start(), i))
    return r


def chars(lit):
    """the characters of a string literal, as a Verus sequence"""
    cs = re.findall(r'\\x..|\\u\{[^}]*\}|\\.|.', lit[1:-1], flags=re.S)
    return 'seq![' + ', '.join("'" + {"'": "\\'", '\\"': '"'}.get(c, c) + "'" for c in cs) + ']' if cs else 'Seq::<char>::empty()'


def generate(spec):
    """returns (text, functions under contract, functions without a contract, notes)"""
    secs = parse(f'{HERE}/verus/{spec}.rs')
    head = '#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n'
    out, blocks, subst, notes, lifts = '', [], [], [], []
    fns, lps, proofs, attrs, trusted = {}, {}, {}, {}, set()
    cur, literals = None, False
    for h, body in secs:
        w = h.split()
        if w[0] == 'prelude':
            out += body
        elif w[0] == 'source':
            t = strip(open(f'{REPO}/{w[1]}').read())
            for n in w[3:] or [None]:
                if w[2] == 'consts':
                    for m in re.finditer(r'(?m)^\s*pub const \w+: [^;]*;', t):
                        out += m.group(0).strip() + '\n'
                elif w[2] == 'const':
                    m = re.search(r'(?:pub(?:\(crate\))? )?const ' + n + r'\b[^;]*;', t)
                    if not m:
                        raise extract.ExtractError(f'{w[1]}: const {n} is gone')
                    out += m.group(0) + '\n'
                else:
                    m = re.search(r'(?:pub(?:\(crate\))? )?' + w[2] + ' ' + n + r'\b', t)
                    if not m:
                        raise extract.ExtractError(f'{w[1]}: {w[2]} {n} is gone')
                    e = match(t, t.index('{', m.end()))
                    out += 'pub ' + re.sub(r'^pub(\(crate\))? ', '', re.sub(r'(?m)^\s*#\[.*?\]\s*$', '', t[m.start():e])) + '\n'
        elif w[0] in ('impl', 'free'):
            cur = dict(kind=w[0], path=w[1], header=h.split(None, 2)[2] if len(w) > 2 else '', names=[])
            blocks.append(cur)
        elif w[0].split('@')[0] == 'subst':
            # subst REGEX ==> TEXT, or subst@FUNCTION REGEX ==> TEXT
            a, _, c = h[len(w[0]) + 1:].partition(' ==>')
            subst.append((a, c.strip(), w[0][6:]))
        elif w[0] == 'literals':
            literals = True
        elif w[0] == 'lift':
            lifts.append((w[1], w[2], ' '.join(w[3:-1]), w[-1]))
        elif w[0] == 'fn':
            cur['names'].append(w[1])
            fns[w[1]] = body
            if 'trusted' in w:
                trusted.add(w[1])
        elif w[0] == 'loop':
            lps[(w[1], int(w[2]))] = body
        elif w[0] == 'attr':
            attrs[w[1]] = ' '.join(w[2:]) + '\n'
        elif w[0] == 'proof':
            proofs[(w[1], ' '.join(w[2:]))] = body
    done, missing, extra = [], [], []
    for b in blocks:
        t = strip(open(f'{REPO}/{b["path"]}').read())
        t = re.split(r'#\[cfg\(test\)\]\s*mod', t)[0]
        if b['kind'] == 'impl':
            i = t.find(b['header'])
            if i < 0:
                raise extract.ExtractError(f'{b["path"]}: `{b["header"]}` is gone')
            j = t.index('{', i + len(b['header']) - (1 if b['header'].endswith('{') else 0))
            fs = functions(t[j + 1:match(t, j) - 1])
            out += b['header'] + ' {\n'
        else:
            fs = functions(t)
        for f, c, param, arg in lifts:
            if f not in fs or c in fs:
                continue
            sig, body = fs[f]
            m = re.search(r'let (?:mut )?' + c + r' = \|([^|]*)\| \{', body)
            if not m:
                continue
            e = match(body, m.end() - 1)
            fs[c] = (f'fn {c}({param}, {m.group(1)})', body[m.end() - 1:e])
            rest = body[e:].lstrip()
            body = body[:m.start()] + rest[1:]
            fs[f] = (sig, re.sub(r'(?<![\w.])' + c + r'\(', c + f'({arg}, ', body))
            subst.append((f'closure {c} of {f}', f'function with the captured variable as parameter `{param}`', ''))
        used = set()
        for n in b['names']:
            if n not in fs:
                missing.append(n)
        # functions called by those under contract that have no contract: taken along without one
        todo, take = [n for n in b['names'] if n in fs], []
        while todo:
            n = todo.pop(0)
            if n in take:
                continue
            take.append(n)
            if n in trusted:
                continue
            for m in re.finditer(r'(?:self\.|Self::|(?<![\w.:]))(\w+)\(', fs[n][1]):
                if m.group(1) in fs and m.group(1) not in take and m.group(1) not in todo:
                    todo.append(m.group(1))
        for n in take:
            sig, body = fs[n]
            if n not in fns:
                extra.append(n)
            for a, c, only in subst:
                if a.startswith('closure ') or only and only != n:
                    continue
                sig2, k = re.subn(a, c, sig)
                body2, k2 = re.subn(a, c, body)
                sig, body = sig2, body2
            sig = re.sub(r'->\s*(.*)$', r'-> (r: \1)', sig, flags=re.S)
            if n in trusted:
                out += '#[verifier::external_body]\n' + sig + '\n' + fns[n] + '{ unimplemented!() }\n'
                continue
            for (fn_, k) in lps:
                # name the iterator of a `for` loop whose invariant mentions it
                if fn_ == n and re.search(r'\bit\.', lps[(fn_, k)]) and k < len(loops(body)):
                    s_ = loops(body)[k][0]
                    m = re.match(r'for\s+(\w+)\s+in\s+', body[s_:])
                    if m:
                        body = body[:s_] + f'for {m.group(1)} in it: ' + body[s_ + m.end():]
            ls = loops(body)
            want = [k for (f, k) in lps if f == n]
            for k, (s, p) in enumerate(ls):
                kw = 'for' if re.search(r'\bit\.', lps.get((n, k), '')) else 'while' if 'decreases' in lps.get((n, k), '') else None
                if kw == 'for' and not body.startswith('for', s) or kw == 'while' and body.startswith('for', s):
                    extra.append(f'{n} (loop {k} was rewritten)')
            if len(ls) != len(want) and (n in fns):
                extra.append(f'{n} (loops changed: {len(ls)} instead of {len(want)})')
            # insert from the end
            ins = []
            for k, (s, p) in enumerate(ls):
                e = match(body, p)
                if (n, f'loop {k} end') in proofs:
                    ins.append((e - 1, '\nproof {\n' + proofs[(n, f'loop {k} end')] + '}\n'))
                if (n, f'loop {k} start') in proofs:
                    ins.append((p + 1, '\n' + proofs[(n, f'loop {k} start')]))
                if (n, f'after loop {k}') in proofs:
                    ins.append((e, '\n' + proofs[(n, f'after loop {k}')]))
                if (n, k) in lps:
                    ins.append((p, '\n' + lps[(n, k)]))
                if (n, f'before loop {k}') in proofs:
                    ins.append((s, '\n' + proofs[(n, f'before loop {k}')]))
            if (n, 'start') in proofs:
                ins.append((1, '\n' + proofs[(n, 'start')]))
            if literals:
                lits = list(dict.fromkeys(re.findall(r'(?<![b\w\'])"(?:\\.|[^"\\])*"', re.sub(r"b?'(?:\\x..|\\u\{[^}]*\}|\\.|[^\\'])'", lambda m: '0' * len(m.group(0)), body), flags=re.S)))
                if lits:
                    for p in [0] + [p for _, p in ls]:
                        ins.append((p + 1, '\nproof { ' + ' '.join(f'reveal_strlit({l}); assert({l}@ =~= {chars(l)});' for l in lits) + ' }\n'))
            for p, x in sorted(ins, key=lambda a: -a[0]):
                body = body[:p] + x + body[p:]
            out += attrs.get(n, '') + sig + '\n' + fns.get(n, '') + body + '\n'
            done.append(n)
        if b['kind'] == 'impl':
            out += '}\n'
    return head + out + '\n} // verus!\nfn main() {}\n', done, missing, extra, subst, trusted


def run(check, v):
    """v: spec, fns (regex: functions whose failure breaks this property; default all), also (regex: functions whose
    contracts the argument uses, whose failure leaves this property undecided: it belongs to another property)"""
    import json
    spec = v['spec']
    own = re.compile(v.get('fns', '.*') + r'\Z')
    dep = re.compile(v.get('also', '(?!)') + r'\Z')
    d = f'{check.work}/verus_{spec}'
    os.makedirs(d, exist_ok=True)
    try:
        text, done, missing, extra, subst, trusted = generate(spec)
    except (extract.ExtractError, OSError, ValueError, IndexError) as e:
        check.undecided.append(f'Verus extraction ({spec}): {e}')
        return
    f = f'{d}/{spec}.rs'
    open(f, 'w').write(text)
    cmd = ['verus', f, '--crate-type=lib', '--output-json', '--time-expanded', '--rlimit', str(v.get('rlimit', 60)), '--multiple-errors', '5']
    t0 = time.time()
    p = subprocess.run(['timeout', str(v.get('timeout', 300))] + cmd, capture_output=True, text=True, cwd=d)
    check.solver_s += time.time() - t0
    check.checker = (check.checker + '; ' if check.checker else '') + ' '.join(cmd).replace(d + '/', '')
    for a, b, only in subst:
        s = f'Verus {spec}{" " + only if only else ""}: substituted `{a}` by `{b}`'
        if s not in check.substs:
            check.substs.append(s)
    err = re.findall(r'(?m)^error.*(?:\n.*){0,6}', p.stderr)
    try:
        j = json.loads(p.stdout[p.stdout.index('{'):])
        vr = j['verification-results']
        br = [x for m in j['times-ms']['smt']['smt-run-module-times'] for x in m['function-breakdown']]
    except (ValueError, KeyError):
        check.undecided.append(f'Verus gave no result for {spec}: ' + ' | '.join(' '.join(x.split()) for x in err[:2])[:400])
        return
    if vr.get('encountered-vir-error') or not br or not vr.get('success') and vr.get('verified', 0) + vr.get('errors', 0) == 0:
        check.undecided.append(f'Verus {spec}: the extracted text is outside what Verus accepts: ' + ' | '.join(' '.join(x.split()) for x in err[:2])[:400])
        return
    short = lambda n: n.split('::')[-1]
    mine = [x for x in br if own.match(short(x['function'])) or dep.match(short(x['function']))]
    check.obligations += len(mine)
    check.discharged += sum(1 for x in mine if x['success'])
    check.functions += [f'verus:{spec}::{short(x["function"])}' for x in mine if x['success'] and x['mode:'] in ('exec', 'proof')]
    check.verus_fns += [short(x['function']) for x in mine if x['success'] and x['mode:'] == 'exec']
    check.assume += [a for a in [f'Verus {spec}: trusted contract of {n}' for n in sorted(trusted | external(text))] if a not in check.assume]
    for m in missing:
        if own.match(m):
            check.undecided.append(f'Verus {spec}: function {m} is gone, its contract was not checked')
    # which functions fail, and how
    failing = {}
    lines = text.split('\n')
    for m in re.finditer(r'(?m)^error: ([^\n]*)\n\s*--> [^\n:]*:(\d+):', p.stderr):
        k = int(m.group(2))
        name = '?'
        for i in range(min(k, len(lines)) - 1, -1, -1):
            x = re.match(r'\s*(?:pub(?:\([^)]*\))? )?(?:(?:open|closed|broadcast|proof|spec) )*fn (\w+)', lines[i])
            if x:
                name = x.group(1)
                break
        failing.setdefault(name, []).append(f'{m.group(1)} (generated line {k}: {lines[k - 1].strip()[:100]})')
    out = '\n'.join(p.stderr.splitlines()[:120])
    for n in sorted({short(x['function']) for x in br if not x['success']}):
        what = failing.get(n, ['obligation failed'])
        mine_ = own.match(n)
        if not mine_ and not dep.match(n):
            continue
        if any('rlimit' in w.lower() or 'resource limit' in w.lower() for w in what):
            check.undecided.append(f'Verus {spec}::{n}: solver limit')
        elif extra or missing:
            # helpers without a contract: the failure says nothing about the property
            check.undecided.append(f'Verus {spec}::{n}: not decided, the code has functions or loops without a contract ({", ".join(extra + missing)})')
        elif not mine_:
            check.undecided.append(f'Verus {spec}::{n}: contract used by this property fails (it states another property, whose check reports it): {"; ".join(what)[:200]}')
        else:
            check.failed.append((f'verus:{spec}::{n}', '; '.join(what)[:800] + '\n' + out, None, None))


def external(text):
    """functions whose contract is assumed"""
    r = set()
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub )?(?:proof )?fn (\w+)', text):
        r.add(m.group(1))
    return r
