#!/usr/bin/env python3
"""Writes Rust type definitions that use the derive macros, and their models.

usage: gen.py OUTDIR.  The definitions are determined by VERIF_SEED and VH_EXTRA (how many random
ones follow the fixed catalogue).
"""
import os, random, sys

out = sys.argv[1]
seed = int(os.environ.get("VERIF_SEED") or 1)
count = int(os.environ.get("VH_EXTRA") or 150)
R = random.Random(f"derive-{seed}")
INTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8}
text, registry, sized, wrapped = [], [], [], []
known = {}  # name -> (longest encoding, weight)


def define(name, lines, kind, size):
    text.extend(lines)
    known[name] = size
    registry.append((kind, name))


def size_of(t):
    if t in INTS:
        return INTS[t]
    if t == "()":
        return 0
    if t.startswith("["):
        return int(t.strip("[]").split(";")[1])
    return known[t]


def default(t):
    if t.startswith("["):
        return f"[0; {t.strip('[]').split(';')[1].strip()}]"
    return f"<{t}>::default()"


# Whatever must not matter is drawn at random: names, comments, foreign attributes, visibility, the
# spelling of types and lengths.
L = random.Random(f"looks-{seed}")
FIELDS = """tag algorithm digest nonce _pad reserved attributes handle curve_id magic clock exponent r#type scheme kdf
zz_first aa_last policy name_alg sizeof_select hierarchy A1 firmware_version pcr_values _0 seed_value locality""".split()
VARIANTS = "Null A Z B2 Marker Sha256 Sha1 Aes Hmac_ Rsa Ecc KeyedHash".split()


def field_names(kinds):
    """Distinct.  None is a name that the code the macros generate could plausibly use itself, unless
    the types of the repository use it too."""
    k = len(kinds)
    if L.random() < 0.3:
        return [f"m{i}" for i in range(k)]
    names = L.sample(FIELDS, min(k, len(FIELDS)))
    names += [f"m{i}" for i in range(k - len(names))]
    if "count" in kinds and L.random() < 0.5:
        names[kinds.index("count")] = "count"
    return names


def noise(indent=""):
    """Comments and attributes that have nothing to do with marshaling."""
    k = L.random()
    if k < 0.6:
        return []
    return [indent + t for t in L.sample(["/// A comment.", "#[allow(dead_code)]", "#[cfg(not(vh_never))]", "/** Two\nlines. */",
                                          "#[doc(alias = \"length\")]", "#[allow(clippy::all, unused)]"], L.choice([1, 1, 2, 3]))]


def vis():
    return L.choice(["pub ", "pub ", "pub(crate) ", ""])


def spell(t):
    """The same type, written in another way."""
    if t in INTS and L.random() < 0.15:
        return L.choice([f"core::primitive::{t}", f"Alias{t}"])
    if t in known and L.random() < 0.1:
        return f"self::{t}"
    return t


def length(n, scope):
    k = L.random()
    if k < 0.6 or n > 250:
        return str(n)
    if k < 0.75:
        return f"{n // 2} + {n - n // 2}"
    if k < 0.85:
        return f"K{n}"
    if k < 0.9:
        return hex(n)
    return f"{n}usize"


text += [f"pub type Alias{t} = {t};" for t in INTS]
text += [f"pub const K{n}: usize = {n};" for n in range(251)]
DERIVE = "#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]"


def struct(name, fields):
    """fields: ('plain', type) | ('fixed', elem, n) | ('count', int) | ('arr', index of count, elem, cap)"""
    fn = field_names([f[0] for f in fields])
    d = noise() + ["#[repr(C)]", DERIVE] + noise() + [f"pub struct {name} {{"]
    sch, build, view, dflt, total = [], [], [], [], 0
    for i, f in enumerate(fields):
        n = fn[i]
        if f[0] == "plain":
            d += noise("    ")
            d.append(f"    {vis()}{n}: {spell(f[1])},")
            sch.append(f"Fld::Plain(<{f[1]}>::sch())")
            build.append(f"{n}: <{f[1]}>::build(&f[{i}], pad)?")
            view.append(f"self.{n}.view()?")
            dflt.append(f"{n}: {default(f[1])}")
            total += size_of(f[1])
        elif f[0] == "fixed":
            d += noise("    ")
            d.append(f"    {vis()}{n}: [{f[1]}; {length(f[2], name)}],")
            sch.append(f"Fld::Plain(fixed::<{f[1]}>({f[2]}))")
            build.append(f"{n}: arr::<{f[1]}, {f[2]}>(&f[{i}], pad)?")
            view.append(f"Val::S(head(&self.{n}, {f[2]})?)")
            dflt.append(f"{n}: [{default(f[1])}; {f[2]}]")
            total += size_of(f[1]) * f[2]
        elif f[0] == "count":
            d += noise("    ")
            d.append(f"    {vis()}{n}: {spell(f[1])},")
            sch.append(f"Fld::Count({INTS[f[1]]})")
            build.append(f"{n}: u(&f[{i}]) as {f[1]}")
            view.append(f"Val::U(self.{n} as u{INTS[f[1]] * 8} as u64)")
            dflt.append(f"{n}: 0")
            total += INTS[f[1]]
        else:
            d += noise("    ")
            d.append(f"    #[marshalable(length = {fn[f[1]]})]")
            d += noise("    ")
            d.append(f"    {vis()}{n}: [{f[2]}; {length(f[3], name)}],")
            sch.append(f"Fld::Arr {{ of: {f[1]}, cap: {f[3]}, elem: <{f[2]}>::sch() }}")
            build.append(f"{n}: arr::<{f[2]}, {f[3]}>(&f[{i}], pad)?")
            view.append(f"Val::L(head(&self.{n}, self.{fn[f[1]]} as usize)?)")
            dflt.append(f"{n}: [{default(f[2])}; {f[3]}]")
            total += size_of(f[2]) * f[3]
    d.append("}")
    counted = any(f[0] == "count" for f in fields)
    sch = ", ".join(sch)
    if not counted:
        sch = "Sch::S(vec![" + sch.replace("Fld::Plain(", "same(") + "])"
    else:
        sch = "Sch::Rec(vec![" + sch + "])"
    d += model(name, sch, f"let f = fields(v); let _ = (f, pad); Ok({name} {{ {', '.join(build)} }})",
               f"Ok(Val::S(vec![{', '.join(view)}]))", f"{name} {{ {', '.join(dflt)} }}")
    define(name, d, "t", total)


def model(name, sch, build, view, dflt):
    return [
        f"impl Default for {name} {{ fn default() -> Self {{ {dflt} }} }}",
        f"impl Model for {name} {{",
        f"    fn sch() -> Sch {{ {sch} }}",
        f"    fn build(v: &Val, pad: u8) -> Result<Self, String> {{ {build} }}",
        f"    fn view(&self) -> Result<Val, String> {{ {view} }}",
        "}",
    ]


def tup(name, types):
    d = ["#[repr(C)]", DERIVE, f"pub struct {name}({', '.join(vis() + spell(t) for t in types)});"]
    b = ", ".join(f"<{t}>::build(&f[{i}], pad)?" for i, t in enumerate(types))
    d += model(name, "Sch::S(vec![" + ", ".join(f"<{t}>::sch()" for t in types) + "])",
               f"let f = fields(v); let _ = (f, pad); Ok({name}({b}))",
               "Ok(Val::S(vec![" + ", ".join(f"self.{i}.view()?" for i in range(len(types))) + "]))",
               f"{name}({', '.join(default(t) for t in types)})")
    define(name, d, "t", sum(map(size_of, types)))


def unit(name):
    d = ["#[repr(C)]", DERIVE, f"pub struct {name};"]
    d += model(name, "Sch::S(vec![])", f"let _ = (v, pad); Ok({name})", "Ok(Val::S(vec![]))", name)
    define(name, d, "t", 0)


def enum(name, repr_, variants):
    """variants: (selector value, how to write it, [types])"""
    w = INTS[repr_]
    mask = (1 << (8 * w)) - 1
    d = []
    body = []
    vn = [f"V{i}" for i in range(len(variants))]
    if L.random() < 0.7:
        vn[: len(VARIANTS)] = L.sample(VARIANTS, min(len(vn), len(VARIANTS)))
    for i, (sel, how, types) in enumerate(variants):
        if how == "const":
            d.append(f"pub const {name.upper()}_V{i}: {repr_} = {sel};")
            e = f"{name.upper()}_V{i}"
        elif how == "hex" and sel >= 0:
            e = hex(sel)
        elif how == "shift" and sel > 0 and sel & (sel - 1) == 0:
            e = f"1 << {sel.bit_length() - 1}"
        elif how == "or" and sel > 1:
            lo = sel & -sel
            e = f"{sel ^ lo:#x} | {lo:#x}"
        elif how == "sum" and sel > 1:
            e = f"{sel - 1} + 1"
        elif how == "field":
            d.append(f"pub const {name.upper()}_W{i}: W<{repr_}> = W({sel});")
            e = f"{name.upper()}_W{i}.0"
        else:
            e = str(sel)
        body += noise("    ")
        body.append(f"    {vn[i]}({', '.join(map(spell, types))}) = {e},")
    d += [f"#[repr({repr_})]" if w == 8 else f"#[repr(C, {repr_})]", "#[derive(Clone, Copy, PartialEq, Debug, Discriminant, Marshalable)]",
          f"pub enum {name} {{"] + body + ["}"]
    vs = []
    b = ["let Val::E(sel, f) = v else { panic!(\"schema mismatch\") };", "let _ = (f, pad);", "match *sel {"]
    v = ["Ok(match self {"]
    for i, (sel, _, types) in enumerate(variants):
        n = sel & mask
        vs.append(f"({n}, vec![{', '.join(f'<{t}>::sch()' for t in types)}])")
        b.append(f"{n} => Ok({name}::{vn[i]}({', '.join(f'<{t}>::build(&f[{j}], pad)?' for j, t in enumerate(types))})),")
        ns = [f"a{j}" for j in range(len(types))]
        v.append(f"{name}::{vn[i]}({', '.join(ns)}) => Val::E({n}, vec![{', '.join(x + '.view()?' for x in ns)}]),")
    b.append("_ => panic!(\"schema mismatch\") }")
    v.append("})")
    first = variants[0][2]
    d += model(name, f"Sch::E {{ w: {w}, vars: vec![{', '.join(vs)}] }}", " ".join(b), " ".join(v),
               f"{name}::{vn[0]}({', '.join(default(t) for t in first)})")
    d += [
        f"impl Var for {name} {{",
        f"    fn disc(&self) -> u64 {{ self.discriminant() as u{8 * w} as u64 }}",
        "    fn marshal_variant(&self, b: &mut [u8]) -> R<usize> { self.try_marshal_variant(b) }",
        f"    fn unmarshal_variant(sel: u64, b: &mut UnmarshalBuf) -> R<Self> {{ Self::try_unmarshal_variant(sel as {repr_}, b) }}",
        "}",
    ]
    define(name, d, "v", w + max(sum(map(size_of, t)) for _, _, t in variants))


def buf(name, cap=None, of=None):
    expr = str(cap) if of is None else f"size_of::<{of}>()"
    der = ", Tpm2bStruct" if of else ""
    attrs = ["#[repr(C)]", "#[marshalable(tpm2b_simple)]"]
    if L.random() < 0.5:
        attrs.reverse()
    data = L.choice(["data", "buffer", "secret", "name", "iv", "r#type", "_b"])
    d = [f"#[derive(Clone, Copy, PartialEq, Debug, Marshalable{der})]"] + noise() + attrs[:1] + noise() + attrs[1:] + [
         f"pub struct {name} {{"] + noise("    ") + ["    size: u16,"] + noise("    ") + [
         f"    {vis()}{data}: [u8; {expr if of else length(cap, name)}],", "}",
         f"impl Model for {name} {{",
         f"    fn sch() -> Sch {{ Sch::B2({expr}) }}",
         f"    fn build(v: &Val, _: u8) -> Result<Self, String> {{ let Val::B(b) = v else {{ panic!(\"schema mismatch\") }}; {name}::from_bytes(b).map_err(|e| format!(\"{{}} bytes refused: {{e:?}}\", b.len())) }}",
         "    fn view(&self) -> Result<Val, String> { Ok(Val::B(self.get_buffer().to_vec())) }", "}"]
    define(name, d, "t", 2 + (cap if of is None else 4 * known[of] + 64))
    if of is None:
        sized.append((name, cap))
    else:
        sized.append((name, None))
        wrapped.append(name)


# ------------------------------------------------------------------ the fixed catalogue
unit("Fu")
struct("Fe", [])
tup("Ft0", [])
for k, (t, w) in enumerate(INTS.items()):
    struct(f"Fi{k}", [("plain", t)])
    tup(f"Fp{k}", [t, "u8", t])
    top = (1 << (8 * w - 1)) - 1
    neg = t[0] == "i"
    enum(f"Fn{k}", t, [(7, "dec", ["u8"]), (0, "dec", []), (1, "const", ["u16", t]), (top, "hex", ["()"]),
                       (-1 if neg else 2 * top + 1, "dec", ["[u8; 3]"]), (64, "shift", [f"Fp{k}", "Fu"]),
                       (0x2B, "or", ["u32", "i8", "u64"]), (-top - 1 if neg else 100, "const", ["Fe"])])
    struct(f"Fl{k}", [("count", t), ("arr", 0, "u8", 4)])
    struct(f"Fm{k}", [("plain", "u16"), ("count", t), ("plain", f"Fn{k}"), ("arr", 1, "u32", 3), ("plain", "u8")])
struct("Fa", [("fixed", "u8", 5), ("fixed", "u16", 3), ("fixed", "Fp2", 2), ("fixed", "u8", 0), ("fixed", "i64", 1)])
struct("Fs", [("count", "u8"), ("arr", 0, "u16", 6), ("arr", 0, "u8", 3), ("plain", "u32")])
struct("Fc", [("count", "u8"), ("count", "u16"), ("arr", 1, "u16", 5), ("arr", 0, "u32", 7)])
struct("Fx", [("count", "u16"), ("arr", 0, "Fs", 3), ("fixed", "Fc", 2)])
struct("Fz", [("count", "u8"), ("arr", 0, "u8", 0), ("plain", "u8")])
struct("Fw", [("count", "u32"), ("arr", 0, "Fn1", 100)])
struct("Fv", [("count", "u64"), ("arr", 0, "u8", 255), ("plain", "u8")])
struct("Fy", [("count", "u16"), ("arr", 0, "u8", 256)])
struct("Fq", [("count", "u32"), ("arr", 0, "u16", 300), ("plain", "u8")])
struct("Fg0", [("fixed", "u16", 17), ("plain", "u8"), ("fixed", "i32", 33)])
struct("Fg1", [("fixed", "Fp1", 20), ("fixed", "u8", 65), ("fixed", "Fn2", 18)])
struct("Fg2", [("fixed", "u32", 260), ("plain", "u16")])
struct("Fg3", [("fixed", "u8", 300), ("fixed", "i8", 129), ("fixed", "u64", 40)])
struct("Fg4", [("fixed", "Fs", 11), ("fixed", "Fu", 50), ("fixed", "Fe", 9)])
struct("Fg5", [("plain", t) for t in list(INTS) * 5])
struct("Fg6", [("plain", "u8")] * 20)
struct("Fg7", [("count", "u8"), ("arr", 0, "Fn1", 20), ("count", "u16"), ("arr", 2, "u32", 70), ("arr", 0, "u64", 40)])
tup("Fh0", ["u8"] * 14)
tup("Fh1", ["u16"] * 6 + ["Fp3"] * 5 + ["[u8; 40]"])
tup("Fh2", list(INTS) * 3)
for k, t in enumerate(INTS):
    enum(f"Fj{k}", ["u8", "u16", "u32", "u64"][k % 4],
         [(1, "dec", [t] * 4), (5, "const", ["u32"]), (9, "dec", [t] * 5), (2, "hex", [t] * 9), (3, "dec", ["u16"] * 12 + [t])])
enum("Fr0", "u8", [(v, "dec", [["u8"], ["u16", "u8"], [], ["Fp1"]][v % 4]) for v in range(0, 80)])
enum("Fr1", "u16", [(v * 257, "hex", [["u32"], ["u8", "u8"], ["[u8; 5]"]][v % 3]) for v in range(40)])
enum("Fr2", "u32", [((v << 16) | 0x11, "const", [["u8"], ["i16"], ["u8", "u16", "u32", "u64"]][v % 3]) for v in range(20)])
buf("Fb0", 0)
buf("Fb1", 1)
buf("Fb2", 64)
buf("Fb3", 255)
buf("Fb4", 256)
buf("Fb5", 3000)
buf("Fbw0", of="Fn2")
buf("Fbw1", of="Fx")
buf("Fbw2", of="Ft0")
buf("Fbw3", of="Fw")
struct("Fk", [("plain", "Fb2"), ("count", "u8"), ("plain", "Fbw0"), ("arr", 1, "Fb1", 4), ("plain", "Fn3")])
tup("Ftk", ["Fk", "[u8; 33]", "()", "Fb0", "Fn4"])
enum("Fek", "u16", [(0x8001, "field", ["Fk"]), (0x8000, "const", ["Fb2", "Fn0", "[u8; 9]"]), (3, "sum", ["Fx"])])
buf("Fbw4", of="Fek")

# ------------------------------------------------------------------ random ones
def some(limit):
    names = [n for n in known if known[n] <= limit]
    if R.random() < 0.45 or not names:
        return R.choice(list(INTS))
    return R.choice(names)


def member(limit):
    x = R.random()
    if x < 0.08:
        return "()"
    if x < 0.22:
        return f"[u8; {R.choice([0, 1, 2, 4, 7, 20, 33])}]"
    return some(limit)


def variant():
    n = R.choice([0, 1, 1, 1, 2, 3, 5, 8])
    if R.random() < 0.2:
        return [some(80)] * n
    return [member(300) for _ in range(n)]


for k in range(count):
    name = f"R{k}"
    x = R.random()
    if x < 0.40:
        fs, total, counts = [], 0, []
        for i in range(R.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12])):
            y = R.random()
            if y < 0.2:
                t = R.choice(list(INTS))
                counts.append((i, t))
                fs.append(("count", t))
            elif y < 0.5 and counts:
                e = some(120)
                c, ct = R.choice(counts[-2:] if R.random() < 0.7 else counts)
                cap = R.choice([0, 1, 2, 3, 4, 5, 8, 16, 33, 60])
                if size_of(e) * cap > 900:
                    cap = 2
                fs.append(("arr", c, e, cap))
            elif y < 0.65:
                e = some(60)
                n = R.choice([0, 1, 2, 3, 5, 9, 16, 17, 31, 40])
                fs.append(("fixed", e, n if size_of(e) * n < 900 else 3))
            else:
                fs.append(("plain", member(600)))
        # A count that governs nothing is a plain integer.
        fs = [("plain", f[1]) if f[0] == "count" and not any(g[0] == "arr" and g[1] == i for g in fs) else f
              for i, f in enumerate(fs)]
        struct(name, fs)
    elif x < 0.55:
        tup(name, [member(500) for _ in range(R.choice([0, 1, 1, 2, 3, 4, 6, 9, 13]))])
    elif x < 0.85:
        t = R.choice(list(INTS))
        w = INTS[t]
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if t[0] == "i" else (0, (1 << (8 * w)) - 1)
        near = R.randint(lo, hi - 20)
        sels = set()
        for _ in range(R.choice([1, 2, 3, 5, 8, 13, 24])):
            c = [R.randint(lo, hi), near + R.randint(0, 9), R.choice([lo, hi, 0, 1]), 1 << R.randint(0, 8 * w - 2)]
            sels.add(R.choice(c))
        sels = list(sels)
        R.shuffle(sels)
        enum(name, t, [(v, R.choice(["dec", "hex", "const", "shift", "or", "sum", "field"]),
                        variant()) for v in sels])
    elif x < 0.92:
        buf(name, R.choice([0, 1, 2, 5, 16, 63, 64, 65, 127, 255, 256, 257, 700]))
    else:
        buf(name, of=R.choice([n for n in known if known[n] < 700]))

text.append("pub fn all() -> Vec<Ty> {\n    vec![")
for kind, n in registry:
    text.append(f"        {'vty' if kind == 'v' else 'ty'}::<{n}>(\"{n}\"),")
text.append("    ]\n}")
text.append("pub fn sized(s: &mut Src, c: &mut Ctx) -> Result<(), String> {\n    match s.below(%d) {" % len(sized))
for i, (n, cap) in enumerate(sized):
    text.append(f"        {i if i < len(sized) - 1 else '_'} => plain::<{n}>(s, c, \"{n}\", {'None' if cap is None else f'Some({cap})'}, 0),")
text.append("    }\n}")
text.append("pub fn wraps(s: &mut Src, c: &mut Ctx) -> Result<(), String> {\n    match s.below(%d) {" % len(wrapped))
for i, n in enumerate(wrapped):
    text.append(f"        {i if i < len(wrapped) - 1 else '_'} => wrapping::<{n}>(s, c, \"{n}\"),")
text.append("    }\n}")

os.makedirs(out, exist_ok=True)
path = os.path.join(out, "types.rs")
new = "\n".join(text) + "\n"
if not os.path.exists(path) or open(path).read() != new:
    with open(path, "w") as f:
        f.write(new)
