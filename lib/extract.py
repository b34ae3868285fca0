"""Mechanical extraction: copies the real sources of the facet crates into ONE local crate.

Why: Kani cannot compile `facet-core` as an external crate (compiler crash on closures inside inline
consts); as modules of one local crate the same text compiles.  Nothing is retyped by hand: every
function body verified is the text found in /repo on this run, after the substitutions listed in
SUBSTITUTIONS (each is reported in the evidence file of the run that used it).
"""
import os, re, shutil, hashlib

REPO = os.environ.get('FACET_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['facet-core', 'facet-reflect', 'facet-msgpack', 'facet-json', 'facet-urlencoded', 'facet-pretty',
       'facet-toml', 'facet-yaml', 'facet-args', 'facet-derive-emit', 'facet-derive-parse']

SUBSTITUTIONS = {
    'paths': 'crate paths rewritten (`crate::` -> `crate::<crate>::`, `facet_x::` -> `crate::facet_x::`), inner attributes of lib.rs dropped',
    'log': 'log macros (trace!/debug!/...) expand to nothing',
    'owo': 'owo-colors replaced by its contract: colouring returns the value itself',
    'fmt': 'bodies of Debug/Display impls of the library replaced by Ok(()); derived Debug writes nothing; core::fmt::write and alloc::fmt::format stubbed (formatting text is not observed by these obligations)',
    'f64': 'str::parse::<f64> replaced by its contract on short decimal integers (exact value), any value elsewhere',
    'parse': 'FromStr entry of scalar vtables replaced by Err (not exercised by these obligations)',
    'avec': 'alloc::vec::Vec inside facet-reflect/src/wip replaced by a fixed-capacity vector with the same contract (overflow of the capacity is a failed assertion)',
    'flatmap': 'FlatMap replaced by its contract (a map keyed by Eq); the real FlatMap is verified against the same contract by property R07',
    'typeid': 'ConstTypeId::eq compares the identity functions instead of calling them and comparing core::any::TypeId (assumed: TypeId equality is type equality)',
}


class ExtractError(Exception):
    pass


def _sub_fmt(t):
    t = re.sub(r'(\bfn (?:fmt|fmt_debug|fmt_display|spez_debug|spez_display)\s*\(\s*&self,\s*_?\w+:\s*&mut [^)]*?\)\s*->\s*[^{;]*?\{)', r'\1 return Ok(());', t)
    return t


def make_crate(dest, crates, subs=(), harness=(), inner=None, features=('std', 'alloc', 'log'), kani=True, extra_deps='', root_extra='', contract=None):
    """contract: {crate: (directory under kani/contracts, [files of the crate kept as they are])} -- the rest of that
    crate is replaced by the contracts of its functions found in the directory.
    dest: directory of the new crate.  harness: files copied as modules.  inner: {merged relative path:
    file whose text is appended} -- how a harness reaches private items."""
    src = os.path.join(dest, 'src')
    if os.path.isdir(src):
        shutil.rmtree(src)
    os.makedirs(src)
    inner = dict(inner or {})
    inner0 = dict(inner)
    names = [c.replace('-', '_') for c in crates]
    digest = hashlib.sha256()
    files = []
    contract = contract or {}
    for c in contract:
        cdir = f'{HERE}/kani/contracts/{contract[c][0]}'
        for root, d, fs in os.walk(cdir):
            for f in fs:
                o = os.path.join(src, c.replace('-', '_'), os.path.relpath(os.path.join(root, f), cdir))
                os.makedirs(os.path.dirname(o), exist_ok=True)
                shutil.copy(os.path.join(root, f), o)
    for c in crates:
        n = c.replace('-', '_')
        base = f'{REPO}/{c}/src'
        kept = set(contract[c][1]) if c in contract else None
        if kept is not None:
            for k in kept:
                if not os.path.exists(f'{base}/{k}'):
                    raise ExtractError(f'{c}/src/{k} is gone')
        if not os.path.isdir(base):
            raise ExtractError(f'{base} is gone')
        for root, d, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if not f.endswith('.rs'):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, base)
                if kept is not None and rel not in kept:
                    continue
                t = open(p, encoding='utf-8').read()
                digest.update(p.encode() + t.encode())
                files.append(os.path.relpath(p, REPO))
                t = re.sub(r'(?<!\$)\bcrate::', f'crate::{n}::', t)
                for o in names:
                    if o != n:
                        t = re.sub(r'(?<![\w:])(::)?' + o + '::', f'crate::{o}::', t)
                if rel == 'lib.rs':
                    t = re.sub(r'(?m)^#!\[.*\]\s*$', '', t)
                    t = re.sub(r'(?m)^\s*extern crate \w+( as \w+)?;\s*$', '', t)
                    if n == 'facet_core':
                        t += '\npub use crate::{value_vtable,value_vtable_inner};\n'
                    rel = 'mod.rs'
                if 'fmt' in subs:
                    t = _sub_fmt(t)
                if 'fmt' in subs:
                    t = re.sub(r'(?m)^\s*use (alloc|std)::format;\s*$', '', t)
                    if n != 'facet_core':
                        t = t.replace('.unwrap()', '.unwrap_v()') + '\n#[allow(unused_imports)] use crate::sym::UnwrapV as _;\n'
                    if n in ('facet_json', 'facet_msgpack'):
                        t = t.replace('.to_string()', '.to_string_v()') + '\n#[allow(unused_imports)] use crate::sym::ToStringV as _;\n'
                if 'f64' in subs:
                    t = t.replace('.parse::<f64>()', '.parse::<crate::sym::F64>().map(|x| x.0)')
                if 'parse' in subs and n == 'facet_core' and rel == 'spez/mod.rs':
                    t, k = re.subn(r'(unsafe fn spez_parse\(&self, s: &str, target: PtrUninit\) -> Result<\(\), ParseError> \{)', r'\1 return Err(ParseError::Generic("")); ', t)
                if contract.get(c) is None and n == 'facet_reflect' and rel.startswith('wip/') or (n == 'facet_reflect' and rel == 'wip.rs'):
                    if 'avec' in subs and rel != 'wip/flat_map.rs':
                        t = t.replace('alloc::vec::Vec<', 'crate::avec::AVec<').replace('alloc::vec![', 'crate::avec1![').replace('= vec![', '= crate::avec1![')
                        t = t.replace('use alloc::{vec, vec::Vec};', 'use crate::avec::AVec as Vec;').replace('use alloc::vec::Vec;', 'use crate::avec::AVec as Vec;').replace('use alloc::vec;', '')
                        if rel == 'wip/mod.rs':
                            t += open(f'{HERE}/kani/support/dummy.rs').read()
                    if 'flatmap' in subs and rel == 'wip/flat_map.rs':
                        t = open(f'{HERE}/kani/support/flat_map.rs').read()
                if 'typeid' in subs and n == 'facet_core' and rel == 'typeid.rs':
                    t = t.replace('        self.get() == other.get()', '        { let (x, y) = unsafe { (core::mem::transmute::<ConstTypeId, *const ()>(*self), core::mem::transmute::<ConstTypeId, *const ()>(*other)) }; x == y }')
                if rel == 'mod.rs':
                    for a, b in inner0.items():
                        if a.startswith(n + '/') and a.endswith('/mod.rs'):
                            t += f"\npub use self::{a.split('/')[-2]}::{os.path.basename(b)[:-3]};\n"
                rel2 = f'{n}/{rel}'
                if rel2 in inner:
                    t += '\n' + open(inner.pop(rel2), encoding='utf-8').read()
                o = os.path.join(src, n, rel)
                os.makedirs(os.path.dirname(o), exist_ok=True)
                open(o, 'w', encoding='utf-8').write(t)
    if inner:
        raise ExtractError('anchor files gone: ' + ', '.join(inner))
    lib = '#![allow(warnings)]\n'
    if 'fmt' in subs:
        lib += '#[macro_use] extern crate nodebug;\n'
    if 'fmt' in subs:
        lib += 'macro_rules! format { ($($t:tt)*) => { ::alloc::string::String::new() } }\n'
    lib += 'extern crate alloc;\nextern crate self as facet;\n'
    for n in names:
        lib += f'pub mod {n};\n'
    lib += 'pub use facet_core::*;\npub use facet_derive::*;\n'
    if 'facet_reflect' in names and not (contract and 'facet-reflect' in contract and contract['facet-reflect'][0] == 'sets'):
        lib += 'pub use facet_reflect::*;\n'
    lib += 'pub mod sym;\n'
    if 'avec' in subs:
        lib += 'pub mod avec;\n#[macro_export] macro_rules! avec1 { ($($t:tt)*) => { $crate::avec::AVec::one($($t)*) } }\n'
        shutil.copy(f'{HERE}/kani/support/avec.rs', src + '/avec.rs')
    shutil.copy(f'{HERE}/kani/support/sym.rs', src + '/sym.rs')
    for h in harness:
        m = os.path.basename(h)[:-3]
        lib += f'pub mod {m};\n'
        shutil.copy(h, f'{src}/{m}.rs')
    lib += root_extra
    open(src + '/lib.rs', 'w').write(lib)
    shim = f'{HERE}/kani/shim'
    deps = [f'facet-derive = {{ path = "{REPO}/facet-derive" }}', 'impls = "1.0.3"', 'bitflags = "2.9.0"']
    deps.append(f'log = {{ path = "{shim}/log" }}' if 'log' in subs else 'log = { version = "0.4", features = ["max_level_off"] }')
    deps.append(f'owo-colors = {{ path = "{shim}/owo-colors" }}' if 'owo' in subs else 'owo-colors = "4"')
    if 'fmt' in subs:
        deps.append(f'nodebug = {{ path = "{shim}/nodebug" }}')
    open(dest + '/Cargo.toml', 'w').write('''[package]
name = "vk"
version = "0.0.0"
edition = "2024"
[workspace]
[features]
default = [%s]
std = []
alloc = []
log = []
[dependencies]
%s
%s
[lints.rust]
unexpected_cfgs = { level = "allow" }
[profile.dev]
debug = 1
opt-level = %s
''' % (','.join(f'"{x}"' for x in features), '\n'.join(deps), extra_deps, '0' if kani else '1'))
    return {'files': files, 'sha256': digest.hexdigest()}


if __name__ == '__main__':
    import sys
    make_crate(sys.argv[1], sys.argv[2].split(','), sys.argv[3].split(',') if sys.argv[3] else (), sys.argv[4:])
