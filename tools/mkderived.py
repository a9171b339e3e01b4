#!/usr/bin/env python3
"""Write sim/src/props/shapes.rs: derived types with random attributes, and what each must stream.

The layouts are worked out here from the documented rules of the attributes, not from the macro's output.
"""
import random, sys, os

R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 20)
STRUCTS, ENUMS = 48, 40
OWN = ["u8", "i64", "bool", "String", "Option<u8>", "Vec<u8>", "(u8, bool)", "char", "f32", "()", "u128", "Option<String>", "[u8; 2]"]
FLAT = ["BTreeMap<String, u8>", "Option<BTreeMap<i64, bool>>", "Vec<u8>", "(u8, bool)", "Raw", "Mixed", "u8", "Consts", "PlainRec", "Option<PlainTup>", "Dynamic", "Clear<Raw>", "MapOf<String, u8>"]
NAMES = ["a", "b", "c", "field0", "field1", "stream", "index", "label", "tag", "r#type", "r#self_", "r#match", "_under", "__sval", "sval_index", "value", "r#fn", "x1", "Upper"]
VARIANTS = ["A", "B", "C", "r#D", "Some", "None", "Ok", "Err", "lower", "r#loop", "Self_", "V_1", "Ünï", "Stream"]
LABELS = ["", "x y", "q\\\"uote", "back\\\\slash", "ünï", "a", "0", "type", "{}", "new\\nline"]


def chance(n):
    return R.randrange(n) == 0


def tag_attr(key="tag"):
    return f"{key} = " + R.choice(['"TG"', "TG", '"self::TG"', "self::TG"])


def label_attr():
    """(attribute, model label)"""
    if chance(3):
        return "label = " + R.choice(["LBL", "self::LBL"]), 'L::stat("a const label")'
    s = R.choice(LABELS)
    return f'label = "{s}"', f'L::stat("{s}")'


def index_attr():
    """(attribute, known value or None, value)"""
    k = R.randrange(6)
    if k == 0:
        return "index = " + R.choice(["IDX", "self::IDX"]), None, 1000
    n = R.choice([0, 1, 2, 3, 7, 40, 255, 100000, -1, -2, -7, -300])
    t = str(n)
    if n > 0 and chance(5):
        t = f"{n}isize"
    return f"index = {t}", n, n


def attrs(parts):
    if not parts:
        return ""
    R.shuffle(parts)
    if len(parts) > 1 and chance(3):
        return "".join(f"#[sval({p})] " for p in parts)
    return f"#[sval({', '.join(parts)})] "


def flag(name, on):
    if on:
        return [R.choice([name, f"{name} = true"])]
    return [f"{name} = false"] if chance(8) else []


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def ident_label(s):
    return f'L::ident("{unraw(s)}")'


class Alloc:
    def __init__(self):
        self.next, self.explicit = 0, False

    def take(self, e):
        """e: None, or (known, value)"""
        if e is not None:
            self.explicit = True
            n = self.next if e[0] is None else e[0]
            self.next = n + 1
            return ("at", e[1])
        n = self.next
        self.next += 1
        return ("at", n) if self.explicit else ("offset", n)


def opt(s):
    return "None" if s is None else f"Some({s})"


def meta(tag, label, index):
    return f"Meta {{ tag: {opt('TG' if tag else None)}, label: {opt(label)}, index: {opt(index)} }}"


def ix(i):
    return f"at({i[1]})" if i[0] == "at" else f"I::offset({i[1]})"


class Body:
    """Named or unnamed fields."""

    def __init__(self, named, generic, flat, least=0, unlabeled=False, unindexed=False):
        self.named, self.unlabeled, self.unindexed = named, unlabeled, unindexed
        n = R.choice([0, 1, 2, 2, 3, 3, 4, 5])
        n = max(n, least)
        if not named and n == 1:
            n = 2
        names = R.sample(NAMES, n)
        labelled = not named and not unlabeled and chance(4)
        al = Alloc()
        self.fields = []
        for k in range(n):
            ty = R.choice(OWN)
            if generic and (k == 0 or chance(4)):
                ty = "T"
            parts = []
            f = dict(name=names[k] if named else str(k), ty=ty, skip=False, kind="own")
            skip = chance(6)
            flatten = flat and not skip and chance(3)
            parts += flag("skip", skip)
            parts += flag("flatten", flatten)
            if skip:
                f["skip"] = True
                if chance(3):
                    parts.append("index = 3")
                if chance(3):
                    parts.append(tag_attr())
                f["attrs"] = attrs(parts) + "#[allow(dead_code)] "
                self.fields.append(f)
                continue
            if flatten:
                f["kind"] = "flat"
                f["ty"] = R.choice(FLAT)
            f["tag"] = f["data"] = False
            if not flatten and chance(4):
                parts.append(tag_attr())
                f["tag"] = True
            if not flatten and chance(4):
                parts.append(tag_attr("data_tag"))
                f["data"] = True
            f["label"] = None
            if not unlabeled:
                if labelled or (named and chance(4)):
                    a, f["label"] = label_attr()
                    parts.append(a)
                elif named:
                    f["label"] = ident_label(f["name"])
            f["index"] = None
            if not unindexed:
                e = None
                if chance(5):
                    a, known, v = index_attr()
                    parts.append(a)
                    e = (known, v)
                f["index"] = al.take(e)
            f["attrs"] = attrs(parts)
            self.fields.append(f)
        live = [f for f in self.fields if not f["skip"]]
        if not live:
            self.to = "RT" if named else "Tup"
        else:
            l, i = live[-1]["label"] is not None, live[-1]["index"] is not None
            self.to = {(1, 1): "RT", (0, 1): "Tup", (1, 0): "Rec", (0, 0): "Seq"}[(l, i)]

    def decl(self):
        if self.named:
            return "{ " + ", ".join(f"{f['attrs']}{f['name']}: {f['ty']}" for f in self.fields) + " }"
        return "(" + ", ".join(f"{f['attrs']}{f['ty']}" for f in self.fields) + ")"

    def arb(self):
        return "{ " + ", ".join(f"{f['name']}: Item::arb(g)" for f in self.fields) + " }"

    def pat(self):
        return "{ " + ", ".join(f"{f['name']}: {'_' if f['skip'] else f'v{k}'}" for k, f in enumerate(self.fields)) + " }"

    def want(self, m):
        out = []
        for k, f in enumerate(self.fields):
            if f["skip"]:
                continue
            v = f"&mut |x| v{k}.want(x)"
            if f["kind"] == "flat":
                out.append(f"Sh::Flat({v})")
            else:
                i = f["index"]
                # an index counted from its position moves on by what's been flattened before it
                i = "Ix::None" if i is None else f"Ix::At({i[1]})" if i[0] == "at" else "Ix::Next"
                t = opt("TG" if f["tag"] else None)
                l = f["label"] or "nolabel()"
                out.append(f"Sh::Own({t}, {str(f['data']).lower()}, {l}, {i}, {v})")
        return f"layout(x, Target::{self.to}, {m}, &mut [{', '.join(out)}])"


def container(label=True):
    """tag, label and index attributes of a container"""
    parts, tag, lab, idx = [], False, None, None
    if chance(3):
        parts.append(tag_attr())
        tag = True
    if chance(3):
        a, lab = label_attr()
        parts.append(a)
    if chance(3):
        a, known, v = index_attr()
        parts.append(a)
        idx = ("at", v)
    return parts, tag, lab, idx


out, names = [], []


def struct(k):
    name = f"S{k}"
    kind = R.choice(["unit", "new", "new", "named", "named", "named", "named", "tuple", "tuple"])
    parts, tag, lab, idx = container()
    lab = lab or ident_label(name)
    m = meta(tag, lab, ix(idx) if idx else None)
    generic = kind != "unit" and chance(5)
    g = "<T>" if generic else ""
    ig = "<T: Item>" if generic else ""
    if kind == "unit":
        a = attrs(parts)
        out.append(f"#[derive(Value)]\n{a}\npub struct {name};\nimpl Item for {name} {{\n    fn arb(_: &mut Gen) -> Self {{ {name} }}\n    fn want(&self, x: &mut Vec<Ev>) {{ x.push(Ev::Tag({m})) }}\n}}\n")
    elif kind == "new":
        clear = not parts and chance(2)
        parts += flag("transparent", clear)
        ty = "T" if generic else R.choice(OWN)
        w = "self.0.want(x)" if clear else f"tg(x, {m}, |x| self.0.want(x))"
        out.append(f"#[derive(Value)]\n{attrs(parts)}\npub struct {name}{g}({ty});\nimpl{ig} Item for {name}{g} {{\n    fn arb(g: &mut Gen) -> Self {{ {name}(Item::arb(g)) }}\n    fn want(&self, x: &mut Vec<Ev>) {{ {w} }}\n}}\n")
    else:
        ul, ui = chance(4), chance(4)
        parts += flag("unlabeled_fields", ul) + flag("unindexed_fields", ui)
        b = Body(kind == "named", generic, chance(2), 1 if generic else 0, ul, ui)
        d = b.decl() + (";" if kind != "named" else "")
        # `T` has to be used
        if generic and not any(f["ty"] == "T" for f in b.fields):
            b.fields[0]["ty"] = "T"
            d = b.decl() + (";" if kind != "named" else "")
        out.append(f"#[derive(Value)]\n{attrs(parts)}\n#[allow(non_snake_case)]\npub struct {name}{g} {d}\nimpl{ig} Item for {name}{g} {{\n    fn arb(g: &mut Gen) -> Self {{ let _ = &g; {name} {b.arb()} }}\n    fn want(&self, x: &mut Vec<Ev>) {{\n        let {name} {b.pat()} = self;\n        {b.want(m)}\n    }}\n}}\n")
    names.append(name + (R.choice(["<u8>", "<Option<String>>", "<Mixed>"]) if generic else ""))


def enum(k):
    name = f"E{k}"
    dyn = chance(4)
    parts, tag, lab, idx = ([], False, None, None) if dyn else container()
    ul, ui = (False, False) if dyn else (chance(3), chance(3))
    parts += flag("dynamic", dyn) + flag("unlabeled_variants", ul) + flag("unindexed_variants", ui)
    lab = lab or ident_label(name)
    m = meta(tag, lab, ix(idx) if idx else None)
    disc = chance(2)
    al = Alloc()
    vs = R.sample(VARIANTS, R.randrange(1, 7))
    decl, arb, want = [], [], []
    base = 0
    used_path = False
    fields = False
    sign = R.choice([1, -1])
    for j, v in enumerate(vs):
        kind = R.choice(["unit", "unit", "new", "named", "tuple"])
        fields |= kind != "unit"
        vp, vt, vl, vi = container()
        d = None
        if disc and chance(2):
            if not used_path and chance(4):
                used_path = True
                d = ("DISC", None, 77777)
            else:
                base += 100
                n = sign * (base + R.randrange(50))
                d = (str(n), n, n)
        if dyn:
            index = vi
        elif vi:
            index = vi
        elif ui:
            index = None
        else:
            index = al.take(d[1:] if d else None)
        label = vl or ident_label(v)
        if ul or (dyn and kind != "unit"):
            label = None
        vm = meta(vt, label, ix(index) if index else None)
        ds = f" = {d[0]}" if d else ""
        if kind == "unit":
            decl.append(f"{attrs(vp)}{v}{ds}")
            arb.append(f"{name}::{v}")
            want.append(f"{name}::{v} => x.push(Ev::Tag({vm}))")
        elif kind == "new":
            decl.append(f"{attrs(vp)}{v}({R.choice(OWN)}){ds}")
            arb.append(f"{name}::{v}(Item::arb(g))")
            w = "v.want(x)" if dyn else f"tg(x, {vm}, |x| v.want(x))"
            want.append(f"{name}::{v}(v) => {w}")
        else:
            fl, fi = chance(4), chance(4)
            vp += flag("unlabeled_fields", fl) + flag("unindexed_fields", fi)
            b = Body(kind == "named", False, chance(3), 0, fl, fi)
            decl.append(f"{attrs(vp)}{v} {b.decl()}{ds}")
            arb.append(f"{name}::{v} {b.arb()}")
            want.append(f"{name}::{v} {b.pat()} => {b.want(vm)}")
    w = "match self {\n            " + ",\n            ".join(want) + ",\n        }"
    if not dyn:
        w = f"en(x, {m}, |x| {w})"
    arms = ",\n            ".join((f"{j} => {a}" if j + 1 < len(arb) else f"_ => {a}") for j, a in enumerate(arb))
    repr_ = "#[repr(isize)]\n" if disc and fields else ""
    out.append(f"#[derive(Value)]\n{attrs(parts)}\n{repr_}#[allow(non_camel_case_types, non_snake_case)]\npub enum {name} {{\n    " + ",\n    ".join(decl) + f",\n}}\nimpl Item for {name} {{\n    fn arb(g: &mut Gen) -> Self {{\n        match g.t.draw({len(vs)}) {{\n            {arms},\n        }}\n    }}\n    fn want(&self, x: &mut Vec<Ev>) {{\n        {w}\n    }}\n}}\n")
    names.append(name)


for k in range(STRUCTS):
    struct(k)
for k in range(ENUMS):
    enum(k)

head = """// Written by tools/mkderived.py: derived types with random attributes, and what each must stream.

use crate::flat::{self, Target};

const DISC: isize = 77777;

#[allow(dead_code)]
enum Ix {
    None,
    /// Given by an attribute, or counting on from one that was.
    At(i128),
    /// The next one of the parent.
    Next,
}

enum Sh<'a> {
    Own(Option<sval::Tag>, bool, L, Ix, &'a mut dyn FnMut(&mut Vec<Ev>)),
    Flat(&'a mut dyn FnMut(&mut Vec<Ev>)),
}

fn nolabel() -> L {
    L::ident("")
}

fn layout(x: &mut Vec<Ev>, to: Target, m: Meta, parts: &mut [Sh]) {
    let n = if parts.iter().any(|p| matches!(p, Sh::Flat(_))) { None } else { Some(parts.len()) };
    match to {
        Target::RT => x.push(Ev::RTBegin(m.clone(), n)),
        Target::Rec => x.push(Ev::RecBegin(m.clone(), n)),
        Target::Tup => x.push(Ev::TupBegin(m.clone(), n)),
        _ => {
            x.push(Ev::TaggedBegin(m.clone()));
            x.push(Ev::SeqBegin(n));
        }
    }
    let mut next = 0i128;
    for p in parts {
        match p {
            Sh::Own(tag, data, label, index, v) => {
                let index = match index {
                    Ix::Next => {
                        next += 1;
                        I { val: next - 1, tag: Some(sval::tags::VALUE_OFFSET) }
                    }
                    Ix::At(n) => at(*n),
                    Ix::None => at(0),
                };
                x.push(match to {
                    Target::RT => Ev::RTVB(tag.clone(), label.clone(), index.clone()),
                    Target::Rec => Ev::RecVB(tag.clone(), label.clone()),
                    Target::Tup => Ev::TupVB(tag.clone(), index.clone()),
                    _ => Ev::SeqVB,
                });
                if *data {
                    x.push(Ev::TaggedBegin(Meta::tag(TG)));
                }
                v(x);
                if *data {
                    x.push(Ev::TaggedEnd(Meta::tag(TG)));
                }
                x.push(match to {
                    Target::RT => Ev::RTVE(tag.clone(), label.clone(), index),
                    Target::Rec => Ev::RecVE(tag.clone(), label.clone()),
                    Target::Tup => Ev::TupVE(tag.clone(), index),
                    _ => Ev::SeqVE,
                });
            }
            Sh::Flat(v) => {
                let mut y = vec![];
                v(&mut y);
                let (evs, n) = flat::flatten(&y, to, if to == Target::Seq { 0 } else { next });
                x.extend(evs);
                next = n;
            }
        }
    }
    match to {
        Target::RT => x.push(Ev::RTEnd(m)),
        Target::Rec => x.push(Ev::RecEnd(m)),
        Target::Tup => x.push(Ev::TupEnd(m)),
        _ => {
            x.push(Ev::SeqEnd);
            x.push(Ev::TaggedEnd(m));
        }
    }
}

"""
text = head + "\n".join(out) + "\nconst SHAPES: &[fn(&mut Tape, &mut Stats) -> Res] = &[\n" + "".join(f"    item::<{n}>,\n" for n in names) + "];\n"
dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/src/props/shapes.rs")
open(dst, "w").write("\n".join(l.rstrip() for l in text.split("\n")))
