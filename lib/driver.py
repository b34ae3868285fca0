"""Runs the check of one property: proof (Kani and/or Verus on sources extracted from /repo on this run), then the
native run of the same harnesses on the real crates (replay, search, bounded enumerations)."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import extract  # noqa
from extract import REPO

TOOL = ('unwinding assertion', 'TOOL-LIMIT', 'is not currently supported', 'recursion unwinding', 'unsupported', 'not supported by Kani',
        'Kani does not support', 'call to foreign', 'This is a placeholder message')


def sh(cmd, cwd=None, env=None, timeout=None, out=None):
    """run in its own process group, kill the group on timeout; returns (rc or None, output)"""
    e = dict(os.environ)
    e.update({'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'CARGO_INCREMENTAL': '0'})
    e.update(env or {})
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        f.seek(0)
        o = f.read().decode('utf-8', 'replace')
    if out:
        open(out, 'w').write(o)
    return rc, o


class Check:
    def __init__(self, pid, cfg, tier):
        self.pid, self.cfg, self.tier = pid, cfg, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.limit = 840 if tier == 'quick' else 10 ** 6
        self.work = tempfile.mkdtemp(prefix=f'vk_{pid}_')
        self.failed = []      # (obligation, detail, harness or None)
        self.undecided = []   # text
        self.obligations = 0
        self.discharged = 0
        self.functions = []
        self.subs = set()
        self.assume = []
        self.native_stats = []
        self.violations = []  # (replay path, found input?)
        self.known = []
        self.native_bin = None
        self.solver_s = 0.0
        self.verus_fns = []
        self.notes = []
        self.substs = []

    def left(self):
        return max(10, self.limit - (time.time() - self.t0))

    # ---------------------------------------------------------------- Kani
    def harness_names(self, files):
        r = []
        for f in files:
            m = os.path.basename(f)[:-3]
            t = open(f).read()
            for x in re.finditer(r'(?m)^\s*fn (\w+)\((\d+)\) \{', t):
                n = x.group(1)
                if n.startswith('t_') and self.tier == 'quick':
                    continue
                r.append((f'{m}::{n}'))
        return r

    def kani(self, k):
        files = [f'{HERE}/harness/{h}.rs' for h in k['harness']]
        inner = {a: f'{HERE}/harness/{b}' for a, b in k.get('inner', {}).items()}
        names = self.harness_names(files)
        for a, b in inner.items():
            for n in self.harness_names([b]):
                names.append(k['inner_mod'] + '::' + n)
        if k.get('only'):
            names = [n for n in names if re.search(k['only'], n)]
        dest = f'{self.work}/kani_{len(os.listdir(self.work))}'
        try:
            info = extract.make_crate(dest, k['crates'], k.get('subs', ()), files, inner, features=k.get('features', ('std', 'alloc', 'log')), extra_deps=k.get('deps', ''), contract=k.get('contract'))
        except (extract.ExtractError, OSError, UnicodeDecodeError) as e:
            self.undecided.append(f'extraction: {e}')
            return
        self.subs |= set(k.get('subs', ()))
        tmo = k.get('timeout', 500) if self.tier == 'quick' else k.get('timeout_thorough', 1500)
        cmd = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--target-dir', dest + '/target', '-j', str(k.get('jobs', 8)),
               '--output-format', 'terse', '--harness-timeout', f'{tmo}s', '--exact']
        for n in names:
            cmd += ['--harness', n]
        rc, o = sh(cmd, cwd=dest, timeout=min(self.left() - 60, 780) if self.tier == 'quick' else 7200, out=dest + '/out.txt')
        self.checker = 'cargo kani (CBMC 6.11/CaDiCaL): ' + ' '.join(cmd[2:11]) + f' [{len(names)} harnesses]'
        done = self.parse_kani(o)
        if not done:
            tail = [l for l in o.splitlines() if l.startswith('error')][:3]
            self.undecided.append('Kani produced no result: ' + ' | '.join(tail)[:300])
        for n in names:
            if n not in done:
                if done:
                    self.undecided.append(f'{n}: no result (time limit or tool failure)')
                continue
            r = done[n]
            self.solver_s += r['t']
            if r['ok'] and r['cov'] == (1, 1) or r['ok'] and r['cov'] and r['cov'][0] == r['cov'][1]:
                self.obligations += r['n']
                self.discharged += r['n']
                self.functions.append(n)
            elif r['ok']:
                self.undecided.append(f'{n}: vacuous (end of harness not reachable)')
                self.obligations += r['n']
            else:
                real = [c for c in r['fail'] if not any(t in c for t in TOOL)]
                self.obligations += max(r['n'], 1)
                self.discharged += max(r['n'] - r['k'], 0)
                if real:
                    self.failed.append((n, '; '.join(real)[:600], n, (dest, cmd)))
                else:
                    self.undecided.append(f'{n}: ' + ('; '.join(r['fail'])[:200] or 'no verdict (solver/time/memory limit)'))

    def parse_kani(self, o):
        cur, th, done = {}, None, {}
        for l in o.splitlines():
            m = re.match(r'(?:Thread (\d+): ?)(.*)$', l)
            if m:
                th, l = m.group(1), m.group(2)
            m = re.match(r'\s*Checking harness (\S+?)\.\.\.', l)
            if m:
                cur[th] = m.group(1)
                done[m.group(1)] = {'ok': None, 'n': 0, 'k': 0, 'fail': [], 't': 0.0, 'cov': None}
                continue
            n = cur.get(th)
            if n is None:
                continue
            r = done[n]
            m = re.search(r'\*\* (\d+) of (\d+) failed', l)
            if m:
                r['k'], r['n'] = int(m.group(1)), int(m.group(2))
            m = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', l)
            if m:
                r['cov'] = (int(m.group(1)), int(m.group(2)))
            m = re.match(r'\s*Failed Checks: (.*)$', l)
            if m:
                r['fail'].append(m.group(1).strip())
            m = re.match(r'\s*File: "(.*?)", line (\d+), in (.*)$', l)
            if m and r['fail']:
                r['fail'][-1] += f' [{os.path.relpath(m.group(1), self.work) if m.group(1).startswith("/tmp") else m.group(1)}:{m.group(2)} in {m.group(3)}]'
            if 'VERIFICATION:- SUCCESSFUL' in l:
                r['ok'] = True
            if 'VERIFICATION:- FAILED' in l:
                r['ok'] = False
            m = re.match(r'\s*Verification Time: ([\d.]+)s', l)
            if m:
                r['t'] = float(m.group(1))
        return {k: v for k, v in done.items() if v['ok'] is not None}

    def playback(self, name, dest, cmd):
        """the verifier's counterexample as the list of values of any()"""
        i = cmd.index('--output-format')
        c = cmd[:cmd.index('-j')] + ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', name]
        rc, o = sh(c, cwd=dest, timeout=min(240, self.left() - 60))
        r = []
        for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S):
            vals = []
            for l in m.group(1).splitlines():
                l = l.strip()
                v = re.match(r'vec!\[([\d, ]*)\]', l)
                if v:
                    vals.append(bytes(int(x) for x in v.group(1).split(',') if x.strip()).hex())
            if vals:
                r.append(','.join(vals))
        return r

    # ---------------------------------------------------------------- native
    def build_native(self):
        n = self.cfg['native']
        dest = f'{self.work}/native'
        os.makedirs(dest + '/src')
        files = [f'{HERE}/harness/{h}.rs' for h in n['harness']]
        for m, args in n.get('gen', {}).items():
            # a family of definitions written by the generator for this run
            g = f'{self.work}/{m}.rs'
            a = [str(x[1] if self.tier != 'quick' else x[0]) if isinstance(x, tuple) else str(x).replace('SEED', str(self.seed)) for x in args]
            subprocess.run([sys.executable, f'{HERE}/gen/{a[0]}'] + a[1:] + [g], check=True)
            files.append(g)
        mods = [os.path.basename(f)[:-3] for f in files]
        merged = n.get('merged')
        lists = []
        for m, f in zip(mods, files):
            t = open(f).read()
            for mac, const in (('harness!', 'PROOFS'), ('native!', 'NATIVE')):
                if f'crate::{mac}' in t:
                    lists.append(f'("{m}", crate::{m}::{const})')
        inner = {a: f'{HERE}/harness/{b}' for a, b in n.get('inner', {}).items()}
        for a, b in inner.items():
            mod = n['inner_paths'][a]
            for mac, const in (('harness!', 'PROOFS'), ('native!', 'NATIVE')):
                if f'crate::{mac}' in open(b).read():
                    lists.append(f'("{os.path.basename(b)[:-3]}", {mod}::{const})')
        entry = 'pub fn vmain() { crate::sym::main(&[' + ', '.join(lists) + ']) }\n'
        try:
            if merged:
                extract.make_crate(dest, merged, (), files, inner, features=n.get('features', ('std', 'alloc', 'log')), kani=False, extra_deps=n.get('deps', ''), root_extra=entry, contract=n.get('contract'))
                open(dest + '/src/main.rs', 'w').write('fn main() { vk::vmain() }\n')
            else:
                crates = n['crates']
                src = '#![allow(warnings)]\nextern crate alloc;\n' + ''.join(f'pub use {c.replace("-", "_")};\n' for c in crates)
                if 'facet' in crates:
                    src += 'pub use ::facet::Facet;\n'
                src += '#[macro_use] pub mod sym;\n' + ''.join(f'pub mod {m};\n' for m in mods) + entry + 'fn main() { vmain() }\n'
                open(dest + '/src/main.rs', 'w').write(src)
                shutil.copy(f'{HERE}/kani/support/sym.rs', dest + '/src/sym.rs')
                for f in files:
                    shutil.copy(f, dest + '/src/')
                deps = ''.join(f'{c} = {{ path = "{REPO}/{c}"{n.get("cfeat", {}).get(c, "")} }}\n' for c in crates) + n.get('deps', '')
                open(dest + '/Cargo.toml', 'w').write(f'[package]\nname = "vk"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\n{deps}\n[profile.dev]\nopt-level = 1\ndebug = 1\noverflow-checks = true\ndebug-assertions = true\n[lints.rust]\nunexpected_cfgs = {{ level = "allow" }}\n')
        except (extract.ExtractError, OSError) as e:
            self.undecided.append(f'native extraction: {e}')
            return
        asan = n.get('asan', True)
        env = {'RUSTFLAGS': '-Awarnings' + (' -Zsanitizer=address' if asan else '')}
        cmd = ['cargo'] + (['+nightly'] if asan else []) + ['build', '--target-dir', dest + '/target'] + (['--target', 'x86_64-unknown-linux-gnu'] if asan else [])
        rc, o = sh(cmd, cwd=dest, env=env, timeout=self.left())
        if rc != 0 and inner:
            # the harness over private parts does not compile any more (they were rearranged): run the public ones
            self.notes.append('native: harness over private parts does not compile, public ones only')
            keep = [m for m in lists if m.split('::')[1] in mods]
            extract.make_crate(dest, merged, (), files, {}, features=n.get('features', ('std', 'alloc', 'log')), kani=False, extra_deps=n.get('deps', ''), root_extra='pub fn vmain() { crate::sym::main(&[' + ', '.join(keep) + ']) }\n', contract=n.get('contract'))
            open(dest + '/src/main.rs', 'w').write('fn main() { vk::vmain() }\n')
            rc, o = sh(cmd, cwd=dest, env=env, timeout=self.left())
        b = dest + '/target/' + ('x86_64-unknown-linux-gnu/' if asan else '') + 'debug/vk'
        if rc == 0 and os.path.exists(b):
            self.native_bin = b
        else:
            err = [l for l in o.splitlines() if l.startswith('error')][:4]
            self.undecided.append('native build failed: ' + ' | '.join(err)[:400])
            self.native_log = o

    def run_native(self, args, timeout):
        return sh([self.native_bin] + args, cwd=self.work, timeout=timeout,
                  env={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4000:symbolize=0', 'RUST_BACKTRACE': '0', 'RUST_MIN_STACK': '16777216'})

    def search(self):
        n = self.cfg['native']
        rc, o = self.run_native(['list'], 60)
        names = [l for l in o.split() if '::' in l]
        if n.get('only'):
            names = [x for x in names if re.search(n['only'], x)]
        short = lambda x: x.split('::')[1]
        if self.tier == 'quick':
            names = [x for x in names if not short(x).startswith(('bt_',))]
        known = {k['key']: k for k in self.findings() if k['kind'] == 'known'}
        secs = n.get('secs', 20) if self.tier == 'quick' else n.get('secs_thorough', 600)
        rnd = [x for x in names if not short(x).startswith(('b_', 'k_', 'bt_'))]
        per = max(0.15, secs / max(1, len(rnd)))
        todo = list(names)
        fails = []
        # several worker processes, harnesses dealt round robin
        W = min(8, max(1, len(todo)))
        groups = [todo[i::W] for i in range(W)]
        import concurrent.futures as cf

        def work(i, g):
            res = []
            g = list(g)
            while g:
                st = f'{self.work}/state{i}'
                rc, o = self.run_native(['search', st, str(self.seed), str(per * min(W, 6))] + g, timeout=min(self.left() - 20, 400 if self.tier == 'quick' else 3000))
                seen = []
                for l in o.splitlines():
                    p = l.split('\t')
                    if p[0] in ('DONE', 'FAIL') and len(p) > 3:
                        seen.append(p[1])
                        res.append(p)
                if rc == 0:
                    return res
                # the process died or hung inside a harness
                b = open(st, 'rb').read(16) if os.path.exists(st) else b''
                if len(b) < 16:
                    return res
                hi, sd = int.from_bytes(b[:8], 'little'), int.from_bytes(b[8:], 'little')
                nm = self.allnames[hi] if hi < len(self.allnames) else None
                if nm is None:
                    return res
                if rc is None:
                    res.append(['HANG', nm, str(sd), '', 'no result within the time limit'])
                else:
                    msg = [l for l in o.splitlines() if 'ERROR: AddressSanitizer' in l or 'overflowed its stack' in l or 'SUMMARY' in l]
                    res.append(['CRASH', nm, str(sd), '', ' '.join(msg)[:300] or f'process ended with status {rc}'])
                g = [x for x in g if x not in seen and x != nm]
            return res
        self.allnames = [l for l in o.split() if '::' in l]
        with cf.ThreadPoolExecutor(W) as ex:
            for res in ex.map(lambda a: work(*a), list(enumerate(groups))):
                for p in res:
                    if p[0] == 'DONE':
                        self.native_stats.append(p)
                    else:
                        fails.append(p)
        out = []
        for p in fails:
            if p[0] == 'HANG':
                # confirm: run this seed alone
                rc, o2 = self.run_native(['seed', p[1], p[2]], 60)
                if rc is not None:
                    if 'REPLAY\tfail' not in o2:
                        self.notes.append(f'{p[1]}: ran out of time in search')
                        continue
            if p[1] in known:
                self.known.append((known[p[1]], p))
                continue
            # confirm in a fresh process
            rc, o2 = self.run_native(['seed', p[1], p[2]], 120)
            if rc == 0 and 'REPLAY\tpass' in o2:
                self.notes.append(f'{p[1]}: failure with seed {p[2]} did not repeat')
                continue
            out.append((p, o2))
        return out

    def replay_values(self, name, vals):
        name = '::'.join(name.split('::')[-2:])
        rc, o = self.run_native(['values', name, vals], 120)
        if rc == 0 and ('REPLAY\tpass' in o or 'REPLAY\trejected' in o or 'REPLAY\tmissing' in o):
            return None
        return o

    # ---------------------------------------------------------------- reporting
    def findings(self):
        r = []
        p = f'{HERE}/KNOWN_FINDINGS'
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'(known|fixed): property=(\S+) (\S+) (.*)$', l.strip())
                if m and m.group(2) == self.pid:
                    r.append({'kind': m.group(1), 'key': m.group(3), 'what': m.group(4)})
        return r

    def violation(self, name, what, how, text, found):
        d = f'{HERE}/evidence/replay'
        os.makedirs(d, exist_ok=True)
        f = f'{d}/{self.pid}_{re.sub(r"[^A-Za-z0-9]+", "_", name)}.txt'
        open(f, 'w').write(f'property: {self.pid}\nobligation/harness: {name}\n{what}\n\nhow to replay:\n{how}\n\noutput:\n{text}\n')
        self.violations.append((os.path.relpath(f, HERE), found, name))

    def run(self):
        try:
            return self.run_()
        finally:
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(self.work, ignore_errors=True)
            else:
                print('kept', self.work)

    def run_(self):
        import threading
        th = None
        for f in glob.glob(f'{HERE}/evidence/replay/{self.pid}_*.txt'):
            os.remove(f)
        if self.cfg.get('native'):
            th = threading.Thread(target=self.build_native)
            th.start()
        self.checker = ''
        for v in self.cfg.get('verus', []):
            import verus
            verus.run(self, v)
        for k in self.cfg.get('kani', []):
            self.kani(k)
        if th:
            th.join()
        nat = []
        if self.native_bin:
            nat = self.search()
            for p, o2 in nat:
                self.violation(p[1], f'{p[0]}: {p[4]}\ninput choices (hex, in the order of any()): {p[3]}',
                               f'native run of harness {p[1]} on the crates of /repo: VERIF_KEEP=1 ./check {self.pid} quick; <work>/native/.../vk seed {p[1]} {p[2]}', o2[-4000:], True)
        for (n, detail, h, kctx) in self.failed:
            if any(v[2] == n for v in self.violations):
                continue
            found = False
            if kctx and self.native_bin and self.left() > 150:
                for vals in self.playback(n, *kctx):
                    o2 = self.replay_values(n, vals)
                    if o2 is not None:
                        self.violation(n, f'failed obligation: {detail}\nverifier counterexample (hex values of any()): {vals}', f'vk values {n} {vals}', o2[-4000:], True)
                        found = True
                        break
            if not found:
                self.violation(n, f'failed obligation: {detail}', 'the verifier gave no input that fails on the real code; re-run the check', detail, bool(self.violations and self.violations[-1][1] and False))
        self.evidence()
        for k, p in self.known:
            print(f'KNOWN-FINDING: property={self.pid} {k["key"]} {k["what"]}')
        for u in self.undecided:
            print(f'UNDECIDED {self.pid}: {u}')
        for u in self.notes:
            print(f'note {self.pid}: {u}')
        print(f'{self.pid} {self.tier}: {self.discharged}/{self.obligations} obligations, {len(self.functions)} harnesses/functions proved, {len(self.undecided)} undecided, '
              f'native runs {sum(int(p[2]) for p in self.native_stats)}, {time.time() - self.t0:.0f}s')
        vs = sorted(self.violations, key=lambda v: not v[1])
        for path, found, name in vs:
            print(f'VIOLATION property={self.pid} replay={path}' + ('' if found else ' no-failing-input-found'))
            break
        for path, found, name in vs[1:]:
            print(f'  also: {name} ({path})')
        return 1 if vs else 0

    def evidence(self):
        c = self.cfg
        level = c['level']
        ev = sum(int(p[2]) - int(p[3]) + int(p[5]) for p in self.native_stats)
        cov = {
            'obligations': self.obligations, 'discharged': self.discharged,
            'checker_cmd': self.checker or c.get('checker', ''),
            'trusted_base': c.get('trusted', []) + [f'extraction drop "{s}": {extract.SUBSTITUTIONS[s]}' for s in sorted(self.subs)] + self.substs,
            'proved_functions_and_harnesses': self.functions,
            'solver_s': round(self.solver_s, 1),
            'undecided': self.undecided,
            'evaluations': ev,
            'distinct_nontrivial': sum(int(p[4]) + int(p[5]) for p in self.native_stats),
            'rule': 'bounded stand-in (never counted as proved): native runs of the same harnesses and of the bounded enumerations on the real crates with generated inputs; non-trivial = distinct recorded input vectors that passed the preconditions, plus enumerated cases',
            'samples': [f'{p[1]}: {p[6][:120]}' for p in self.native_stats[:5] if len(p) > 6],
            'bounded_standins': [f'{p[1]}: {p[2]} runs, {p[5]} enumerated cases' for p in self.native_stats],
        }
        if level != 'proof':
            cov['explanation'] = c.get('explanation', '')
        e = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
             'assumptions': c.get('assumptions', []) + self.assume, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        if c.get('bounds'):
            e['assumptions'] = e['assumptions'] + ['bounds: ' + c['bounds']]
        os.makedirs(f'{HERE}/evidence', exist_ok=True)
        json.dump(e, open(f'{HERE}/evidence/{self.pid}.json', 'w'), indent=1)


def main(argv):
    import props
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    return Check(pid, props.PROPS[pid], tier).run()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
