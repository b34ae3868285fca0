"""Writes a Rust module with a family of derived structs and enums and, for each, the assertions that tie the
derived shape to the compiler's own layout (field addresses) and to the declaration the generator wrote."""
import random, sys

SC = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'char', 'f32', 'f64', '()',
      'String', 'Vec<u8>', 'Vec<u64>', 'Option<u32>', 'Option<bool>', '[u8; 3]', '[u16; 4]', '&\'static str', '(u8, u32)', '(u64,)', 'std::sync::Arc<u64>', 'Option<String>', 'core::num::NonZeroU16', '[(u8, u32); 2]', 'Vec<Option<u16>>']
CV = {'u8': '(k as u8)', 'bool': '(k % 2 == 1)', 'char': "(char::from_u32(97 + k as u32 % 26).unwrap())", '()': '()', 'String': 'std::format!("s{k}")',
      'Vec<u8>': 'vec![k as u8, 2]', 'Vec<u64>': 'vec![k as u64]', 'Option<u32>': '(if k % 3 == 0 { None } else { Some(k as u32) })', 'Option<bool>': 'Some(k % 2 == 0)',
      '[u8; 3]': '[k as u8, 1, 2]', '[u16; 4]': '[1, 2, k as u16, 4]', "&'static str": '"text"', '(u8, u32)': '(k as u8, 9u32)', '(u64,)': '(k as u64,)', 'std::sync::Arc<u64>': 'std::sync::Arc::new(k as u64)',
      'Option<String>': 'Some(std::format!("o{k}"))', 'core::num::NonZeroU16': 'core::num::NonZeroU16::new(k as u16 % 99 + 1).unwrap()', '[(u8, u32); 2]': '[(1, 2), (k as u8, 4)]', 'Vec<Option<u16>>': 'vec![None, Some(k as u16)]'}
for t in SC:
    CV.setdefault(t, f'(k as {t})')
NAMES = ['a', 'b', 'foo', 'bar_baz', 'x1', '_under', 'camelCase', 'value', 'name', 'len', 's', 'f', 'data', 'self_', 'shape', 'fields', 'vtable', 'id', 'T0', 'ptr', 'offset', 'very_long_field_name_that_goes_on_and_on_and_on', 'été', 'q', 'w', 'e', 'r', 't', 'y', 'u', 'i', 'o', 'p', 'type_', 'r#type', 'r#fn', 'attributes', 'doc', 'target', 'other']


class G:
    def __init__(self, seed, tier):
        self.r = random.Random(seed)
        self.out = []
        self.calls = []
        self.structs = []

    def fattr(self, r, ty, defaults):
        """attributes of one field: source text and the expected Rust checks"""
        src, exp, flags, doc = [], [], 'FieldFlags::EMPTY', []
        for i in range(r.choice([0, 0, 0, 1, 1, 2])):
            d = r.choice([' plain', ' with "quotes"', ' back\\\\slash', ' ünicode', '', ' two  spaces '])
            src.append(f'#[doc = "{d}"]'.replace(' with "quotes"', ' with \\"quotes\\"'))
            doc.append('"' + d.replace('"', '\\"') + '"')
        ks = r.sample(['sensitive', 'rename', 'default', 'defeq', 'arb', 'arbkv', 'other', 'cfg'], r.choice([0, 0, 1, 1, 2, 3]))
        if 'default' in ks and 'defeq' in ks:
            ks.remove('default')
        for k in ks:
            if k == 'sensitive':
                src.append('#[facet(sensitive)]'); exp.append('FieldAttribute::Sensitive'); flags = 'FieldFlags::SENSITIVE'
            elif k == 'rename':
                n = r.choice(['renamed', 'Re-Named', 'with space', 'kebab-case', '@type', 'a.b', 'ren=amed'])
                src.append(f'#[facet(rename = "{n}")]'); exp.append(f'FieldAttribute::Rename("{n}")')
            elif k == 'default':
                src.append('#[facet(default)]'); exp.append('FieldAttribute::Default(None)')
            elif k == 'defeq':
                if ty not in CV:
                    continue
                self.nd = getattr(self, 'nd', 0) + 1; fn = f'dflt_{self.nd}'
                defaults.append(f'fn {fn}() -> {ty} {{ let k = {r.randrange(50)}usize; let _ = k; {CV[ty]} }}')
                src.append(f'#[facet(default = "{fn}")]'); exp.append(('DF', fn, ty))
            elif k == 'arb':
                n = r.choice(['skip', 'flatten', 'anything_else', 'positional'])
                src.append(f'#[facet({n})]'); exp.append(f'FieldAttribute::Arbitrary("{n}")')
            elif k == 'arbkv':
                src.append('#[facet(unit = "ms")]'); exp.append(('ARB', 'unit', '"ms"'))
            elif k == 'other':
                src.append(r.choice(['#[allow(dead_code)]', '#[cfg(all())]']))
        return '\n        '.join(src), exp, flags, doc

    def field_checks(self, i, name, ty, addr, exp, flags, doc):
        shown = name[2:] if name.startswith('r#') else name
        if shown.startswith('_') and shown[1:].isdigit():
            pass
        o = [f'let f = &fs[{i}];',
             f'assert_eq!(f.name, "{shown}", "{{w}}: field {i} name");',
             f'assert!(f.shape().id == ConstTypeId::of::<{ty}>() && *f.shape() == *<{ty} as Facet>::SHAPE, "{{w}}: field {i} type");',
             f'assert_eq!(f.shape().layout, core::alloc::Layout::new::<{ty}>(), "{{w}}: field {i} layout");',
             f'assert_eq!(f.offset, {addr} as usize - base, "{{w}}: field {i} offset");',
             f'assert!(f.flags == {flags}, "{{w}}: field {i} flags");',
             f'assert_eq!(f.doc, &[{", ".join(doc)}] as &[&str], "{{w}}: field {i} doc");',
             f'assert_eq!(f.attributes.len(), {len(exp)}, "{{w}}: field {i} attributes");']
        for j, e in enumerate(exp):
            if isinstance(e, str):
                o.append(f'assert!(f.attributes[{j}] == {e}, "{{w}}: field {i} attribute {j}");')
            elif e[0] == 'DF':
                o.append(f'match f.attributes[{j}] {{ FieldAttribute::Default(Some(d)) => {{ let mut m = MaybeUninit::<{e[2]}>::uninit(); unsafe {{ d(PtrUninit::new(m.as_mut_ptr())); assert!(m.assume_init() == {e[1]}(), "{{w}}: default function of field {i}"); }} }} _ => panic!("{{w}}: field {i} default") }}')
            else:
                o.append(f'match f.attributes[{j}] {{ FieldAttribute::Arbitrary(s) => assert!(s.replace(" ", "") == r#"{e[1]}={e[2]}"#, "{{w}}: field {i} attribute"), _ => panic!("{{w}}: field {i} attribute") }}')
        return [x.replace('"{w}', '"' + self.cur).replace('{w}', self.cur) for x in o]

    def cattr(self, r):
        src, exp, doc = [], [], []
        for i in range(r.choice([0, 0, 1, 2])):
            src.append(f'/// container doc {i} "q"'); doc.append(f'" container doc {i} \\"q\\""')
        if r.random() < .3:
            src.append('#[facet(deny_unknown_fields)]'); exp.append('ShapeAttribute::DenyUnknownFields')
        return src, exp, doc

    def struct(self, k):
        r = self.r
        name = f'Gs{k}'
        self.cur = name
        kind = r.choice(['named'] * 5 + ['tuple'] * 3 + ['unit'])
        n = 0 if kind == 'unit' else r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 17, 30])
        if kind == 'tuple' and n == 0:
            n = 1
        gen = r.choice([None] * 5 + ['T', 'TN', 'aT', 'N', 'a'])
        if kind == 'unit':
            gen = r.choice([None, 'N'])
        if n == 0 and gen in ('T', 'TN', 'aT', 'a'):
            gen = None
        rep = r.choice(['', '', '', '#[repr(C)]', '#[repr(Rust)]'])
        cs, ce, cd = self.cattr(r)
        derives = 'Facet'
        pool = list(SC) + [s for s in self.structs[-6:]]
        tys = [r.choice(pool) for _ in range(n)]
        if n == 1 and kind == 'tuple' and r.random() < .5:
            rep = '#[repr(transparent)]'
        gdef, guse, inst = '', '', ['']
        if gen == 'T':
            gdef, inst = '<T>', ['<u8>', '<String>', '<(u8, u64)>', '<Option<u16>>']
        if gen == 'TN':
            gdef, inst = '<T, const N: usize>', ['<u8, 3>', '<u32, 0>', '<String, 2>']
        if gen == 'aT':
            gdef, inst = "<'a, T>", ["<'static, u8>", "<'static, u64>"]
        if gen == 'N':
            gdef, inst = '<const N: usize>', ['<0>', '<5>']
        if gen == 'a':
            gdef, inst = "<'a>", ["<'static>"]
        gdef_src = gdef
        where = ''
        if gen == 'T' and r.random() < .5:
            where = ' where T: Clone'
        if gen in ('T', 'aT') and r.random() < .3:
            gdef_src = gdef.replace('T>', 'T: Send>')
        gts = {'T': ['T', 'Option<T>', 'Vec<T>', '(u8, T)'], 'TN': ['T', '[T; N]', 'Vec<T>'], 'aT': ['T', "&'a str"], 'N': ['[u8; N]', '[u32; N]'], 'a': ["&'a str"]}.get(gen, [])
        for i in range(n):
            if gts and (i == 0 or r.random() < .3):
                tys[i] = r.choice(gts)
        if n and gen in ('aT',):
            if n == 1:
                tys = ['T', "&'a str"]; n = 2
            else:
                tys[0], tys[1] = 'T', "&'a str"
            rep = '' if rep == '#[repr(transparent)]' else rep
        if gen == 'T' and 'T' not in tys and not any('T' in t.replace('T0', '') and t in gts for t in tys):
            tys[0] = 'T'
        if gen == 'TN' and rep == '#[repr(transparent)]':
            rep = ''
        if gen == 'TN':
            tys[0] = '[T; N]'
        defaults = []
        fsrc, checks = [], []
        pre = []
        fields = []
        names = r.sample(NAMES, min(n, len(NAMES))) if kind == 'named' else [str(i) for i in range(n)]
        for i in range(n):
            a, exp, flags, doc = self.fattr(r, tys[i] if not any(x in tys[i] for x in ('T', 'N')) or tys[i] in SC else 'GENERIC', defaults)
            vis = r.choice(['', '', 'pub ', 'pub(crate) ', 'pub(super) '])
            fsrc.append(f'{a} {vis}{names[i] + ": " if kind == "named" else ""}{tys[i]}')
            fields.append((names[i], tys[i], exp, flags, doc))
        body = {'named': '{ ' + ',\n        '.join(fsrc) + ' }', 'tuple': '( ' + ',\n        '.join(fsrc) + ' )', 'unit': ''}[kind]
        wsrc = where
        s = '\n    '.join(cs + ([rep] if rep else []))
        vis = r.choice(['', 'pub ', 'pub(crate) '])
        if kind == 'named':
            decl = f'{vis}struct {name}{gdef_src}{wsrc} {body}'
        else:
            decl = f'{vis}struct {name}{gdef_src}{body}{wsrc};'
        self.out.append('\n'.join(defaults) + f'\n    #[derive({derives})]\n    {s}\n    #[allow(dead_code, non_snake_case)]\n    {decl}\n')
        if not gen and n:
            self.structs.append(name)
        for ins in inst:
            sub = {}
            if ins:
                args = self.split(ins[1:-1])
                ps = [p.split(':')[0].replace('const ', '').strip() for p in self.split(gdef[1:-1])]
                sub = dict(zip(ps, args))
            T = name + (ins and '::' + ins)
            TT = name + ins
            self.cur = name + ins.replace('"', '')
            c = [f'let s = <{TT} as Facet>::SHAPE;', f'shape_ok::<{TT}>("{self.cur}");',
                 f'let m = MaybeUninit::<{TT}>::uninit(); let p = m.as_ptr(); let base = p as usize;',
                 f'let sd = match s.def {{ Def::Struct(x) => x, _ => panic!("struct") }}; let fs = sd.fields;',
                 f'assert_eq!(fs.len(), {n}, "{self.cur}: number of fields");',
                 f'assert!(sd.kind == StructKind::{ {"named": "Struct", "tuple": "TupleStruct", "unit": "Unit"}[kind] }, "{self.cur}: kind");',
                 f'assert!(s.attributes.len() == {len(ce)} && s.attributes.iter().all(|a| matches!(a, ShapeAttribute::DenyUnknownFields)), "{self.cur}: container attributes");',
                 f'assert_eq!(s.doc, &[{", ".join(cd)}] as &[&str], "{self.cur}: container doc");']
            tp = [(p, a) for p, a in sub.items() if p == 'T']
            c.append(f'assert_eq!(s.type_params.len(), {len(tp)}, "{self.cur}: type parameters");')
            for j, (p, a) in enumerate(tp):
                c.append(f'assert!(s.type_params[{j}].name == "{p}" && s.type_params[{j}].shape() == <{a} as Facet>::SHAPE, "{self.cur}: type parameter {p}");')
            for i, (nm, ty, exp, flags, doc) in enumerate(fields):
                ty2 = self.inst(ty, sub)
                c += self.field_checks(i, nm, ty2, f'unsafe {{ core::ptr::addr_of!((*p).{nm}) }}', exp, flags, doc)
            fn = f'{name.lower()}_{len(self.calls)}'
            self.out.append(f'    fn {fn}() {{\n        ' + '\n        '.join(c) + '\n    }\n')
            self.calls.append(fn)

    def split(self, s):
        r, d, cur = [], 0, ''
        for ch in s:
            if ch in '<([':
                d += 1
            if ch in '>)]':
                d -= 1
            if ch == ',' and d == 0:
                r.append(cur.strip()); cur = ''
            else:
                cur += ch
        return r + [cur.strip()] if cur.strip() else r

    def inst(self, ty, sub):
        import re
        if not sub or ty in SC:
            return ty.replace("'a", "'static")
        for p, a in sub.items():
            if p.startswith("'"):
                ty = ty.replace("'a", a)
            else:
                ty = re.sub(rf'\b{p}\b', a, ty)
        return ty

    def enum(self, k):
        r = self.r
        name = f'Ge{k}'
        prim = r.choice(['u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'])
        rep = r.choice(['p', 'p', 'p', 'C', 'Cp', 'p'])
        reprs = {'p': f'#[repr({prim})]', 'C': '#[repr(C)]', 'Cp': r.choice([f'#[repr(C, {prim})]', f'#[repr({prim}, C)]', f'#[repr(C)] #[repr({prim})]'])}[rep]
        gen = r.random() < .2 and rep == 'p'
        nv = r.choice([1, 2, 3, 4, 5, 7, 12])
        mx = {'u8': 255, 'i8': 127, 'i16': 32767, 'u16': 65535, 'i32': 2 ** 31 - 1, 'u32': 2 ** 32 - 1}.get(prim, 2 ** 63 - 2)
        if rep == 'C':
            mx = 2 ** 31 - 1
        d = 0
        used = set()
        vs, defaults = [], []
        cs, _, cd = self.cattr(r)
        cs = [x for x in cs if x.startswith('///')]
        src = []
        data = r.random() < .75
        for i in range(nv):
            vn = r.choice(['A', 'Bee', 'C0', 'Longer_Name', 'Unit', 'Tuple', 'Record', 'None', 'Some', 'Ok', 'Self_', 'Éa']) + str(i)
            kind = r.choice(['unit', 'tuple', 'named', 'tuple', 'named']) if data else 'unit'
            if rep == 'Cp' and i == 0:
                kind = 'tuple'
            n = 0 if kind == 'unit' else r.choice([1, 1, 2, 3, 4, 6])
            pool = [x for x in SC if '&' not in x] + self.structs[-4:]
            tys = [r.choice(pool) for _ in range(n)]
            if gen and n:
                tys[0] = 'T'
            elif gen:
                kind, n, tys = 'tuple', 1, ['T']
            names = r.sample([x for x in NAMES if not x.startswith('_')], n) if kind == 'named' else [f'_{j}' for j in range(n)]
            disc = ''
            nd = d
            if r.random() < .35 and (rep != 'C' or not data):
                nd = r.choice([d, d + r.randrange(0, 9), min(d + r.randrange(200), mx), min(mx - nv + i, mx)])
                if nd < d:
                    nd = d
                if r.random() < .4:
                    nd = r.randrange(0, min(mx, 120))
                    if nd in used:
                        nd = d
            if nd > mx or nd in used:
                break
            if nd != d or (r.random() < .15 and (rep != 'C' or not data)):
                f = r.choice(['{}', '0x{:x}', '0X{:X}', '0b{:b}', '0o{:o}', '_'])
                t = (str(nd) if nd < 1000 else f'{nd:_}') if f == '_' else f.format(nd)
                t = t.replace('0X', '0x')
                disc = f' = {t}'
            d = nd
            used.add(d)
            fs, vsrc, vdoc = [], [], []
            for j in range(n):
                a, exp, flags, doc = self.fattr(r, 'GENERIC' if tys[j] == 'T' else tys[j], defaults)
                vsrc.append(f'{a} {names[j] + ": " if kind == "named" else ""}{tys[j]}')
                fs.append((names[j], tys[j], exp, flags, doc))
            vd = ''
            if r.random() < .3:
                vd = '/// variant doc\n        '; vdoc = ['" variant doc"']
            src.append(f'{vd}{vn}' + {'unit': '', 'tuple': ' ( ' + ', '.join(vsrc) + ' )', 'named': ' { ' + ', '.join(vsrc) + ' }'}[kind] + disc)
            vs.append((vn, kind, d, fs, vdoc))
            d += 1
        if not vs:
            return
        g = '<T>' if gen else ''
        s = '\n    '.join(cs + [reprs])
        self.out.append('\n'.join(defaults) + f'\n    #[derive(Facet)]\n    {s}\n    #[allow(dead_code, non_snake_case, non_camel_case_types)]\n    pub enum {name}{g} {{\n        ' + ',\n        '.join(src) + '\n    }\n')
        self.enums.append((name, gen, rep, prim, vs))
        for ins in (['<u8>', '<u64>', '<String>'] if gen else ['']):
            TT = name + ins
            self.cur = TT
            c = [f'let s = <{TT} as Facet>::SHAPE;', f'shape_ok::<{TT}>("{TT}");',
                 f'let ed = match s.def {{ Def::Enum(x) => x, _ => panic!("enum") }};',
                 f'assert_eq!(ed.variants.len(), {len(vs)}, "{TT}: number of variants");',
                 f'assert_eq!(s.doc, &[{", ".join(cd)}] as &[&str], "{TT}: container doc");']
            if rep != 'C':
                rn = {'usize': 'USize', 'isize': 'ISize'}.get(prim, prim.upper())
                c.append(f'assert!(ed.repr == EnumRepr::{rn}, "{TT}: representation");')
            for i, (vn, kind, dv, fs, vdoc) in enumerate(vs):
                c += ['{', f'let v = &ed.variants[{i}]; let fs = v.data.fields;',
                      f'assert_eq!(v.name, "{vn}", "{TT}: variant {i} name"); assert_eq!(v.discriminant, {dv}, "{TT}: variant {i} discriminant");',
                      f'assert_eq!(v.doc, &[{", ".join(vdoc)}] as &[&str], "{TT}: variant {i} doc");',
                      f'assert!(v.data.kind == StructKind::{ {"unit": "Unit", "tuple": "Tuple", "named": "Struct"}[kind] }, "{TT}: variant {i} kind");',
                      f'assert_eq!(fs.len(), {len(fs)}, "{TT}: variant {i} fields");']
                vals = [CVG(self.inst(ty, {'T': ins[1:-1]} if gen else {}), j) for j, (nm, ty, *_x) in enumerate(fs)]
                if all(v is not None for v in vals):
                    if kind == 'tuple':
                        con, pat = f'{name}::{vn}({", ".join(vals)})', f'{name}::{vn}({", ".join("x%d" % j for j in range(len(fs)))})'
                    elif kind == 'named':
                        con = f'{name}::{vn} {{ ' + ', '.join(f'{nm}: {v}' for (nm, *_x), v in zip(fs, vals)) + ' }'
                        pat = f'{name}::{vn} {{ ' + ', '.join(f'{nm}: x{j}' for j, (nm, *_x) in enumerate(fs)) + ' }'
                    else:
                        con = pat = f'{name}::{vn}'
                    c.append(f'let k = {7 + i}usize; let _ = k; let x: {TT} = {con}; let base = &x as *const {TT} as usize; let xp = &x;')
                    c.append(f'let e = crate::facet_reflect::Peek::new(xp).into_enum().unwrap(); assert!(e.variant_index() == {i} && e.discriminant() == {dv} && e.active_variant().name == "{vn}" && e.fields().count() == {len(fs)}, "{TT}: variant {i} read back");')
                    # the discriminant read at offset 0 in the stated representation
                    c.append(f'assert_eq!(read_disc(ed.repr, base), {dv}, "{TT}: variant {i} stored discriminant");')
                    c.append(f'match xp {{ {pat} => {{')
                    for j, (nm, ty, exp, flags, doc) in enumerate(fs):
                        c += self.field_checks(j, nm, self.inst(ty, {'T': ins[1:-1]} if gen else {}), f'x{j} as *const {self.inst(ty, {"T": ins[1:-1]} if gen else {})}', exp, flags, doc)
                    c.append('} _ => unreachable!() }')
                c.append('}')
            fn = f'{name.lower()}_{len(self.calls)}'
            self.out.append(f'    #[allow(unreachable_patterns)] fn {fn}() {{\n        ' + '\n        '.join(c) + '\n    }\n')
            self.calls.append(fn)


def CVG(t, j):
    if t in CV:
        return CV[t].replace('k', f'(k + {j})') if t not in ("&'static str",) and 'k' in CV[t] and False else CV[t]
    return None


HEAD = '''use crate::facet_core::*;
use crate::Facet;
use core::mem::MaybeUninit;
use std::{vec, vec::Vec, string::String};
fn shape_ok<T: Facet>(w: &str) {
    let s = T::SHAPE;
    assert_eq!(s.layout, core::alloc::Layout::new::<T>(), "{w}: layout");
    assert!(s.id == ConstTypeId::of::<T>(), "{w}: type id");
    assert!(s.vtable.drop_in_place.is_some() || !core::mem::needs_drop::<T>(), "{w}: no drop_in_place for a type that needs drop");
}
#[allow(dead_code)]
fn read_disc(r: EnumRepr, a: usize) -> i64 { unsafe { match r {
    EnumRepr::U8 => *(a as *const u8) as i64, EnumRepr::U16 => *(a as *const u16) as i64, EnumRepr::U32 => *(a as *const u32) as i64, EnumRepr::U64 => *(a as *const u64) as i64, EnumRepr::USize => *(a as *const usize) as i64,
    EnumRepr::I8 => *(a as *const i8) as i64, EnumRepr::I16 => *(a as *const i16) as i64, EnumRepr::I32 => *(a as *const i32) as i64, EnumRepr::I64 => *(a as *const i64), EnumRepr::ISize => *(a as *const isize) as i64, _ => panic!("representation") } } }
'''


def main(kind, seed, n, out):
    g = G(f'{kind}{seed}', '')
    g.enums = []
    if kind == 'structs':
        for k in range(n):
            g.struct(k)
    else:
        for k in range(3):
            g.struct(k)
        g.calls = []
        for k in range(n):
            g.enum(k)
    t = HEAD + '\n'.join(g.out)
    t += '\ncrate::native! {\n    fn b_generated() {\n        ' + ' '.join(f'{c}();' for c in g.calls) + f'\n        crate::sym::counted({len(g.calls)});\n    }}\n}}\n'
    open(out, 'w').write(t)


if __name__ == '__main__':
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
