// Written by tools/mkderived.py: derived types with random attributes, and what each must stream.

use crate::flat::{self, Target};

const DISC: isize = 77777;

#[allow(dead_code)]
enum Ix {
    None,
    /// Given by an attribute, or counting on from one that was.
    At(i128),
    /// The next one of the parent.
    Next,
}

enum Sh<'a> {
    Own(Option<sval::Tag>, bool, L, Ix, &'a mut dyn FnMut(&mut Vec<Ev>)),
    Flat(&'a mut dyn FnMut(&mut Vec<Ev>)),
}

fn nolabel() -> L {
    L::ident("")
}

fn layout(x: &mut Vec<Ev>, to: Target, m: Meta, parts: &mut [Sh]) {
    let n = if parts.iter().any(|p| matches!(p, Sh::Flat(_))) { None } else { Some(parts.len()) };
    match to {
        Target::RT => x.push(Ev::RTBegin(m.clone(), n)),
        Target::Rec => x.push(Ev::RecBegin(m.clone(), n)),
        Target::Tup => x.push(Ev::TupBegin(m.clone(), n)),
        _ => {
            x.push(Ev::TaggedBegin(m.clone()));
            x.push(Ev::SeqBegin(n));
        }
    }
    let mut next = 0i128;
    for p in parts {
        match p {
            Sh::Own(tag, data, label, index, v) => {
                let index = match index {
                    Ix::Next => {
                        next += 1;
                        I { val: next - 1, tag: Some(sval::tags::VALUE_OFFSET) }
                    }
                    Ix::At(n) => at(*n),
                    Ix::None => at(0),
                };
                x.push(match to {
                    Target::RT => Ev::RTVB(tag.clone(), label.clone(), index.clone()),
                    Target::Rec => Ev::RecVB(tag.clone(), label.clone()),
                    Target::Tup => Ev::TupVB(tag.clone(), index.clone()),
                    _ => Ev::SeqVB,
                });
                if *data {
                    x.push(Ev::TaggedBegin(Meta::tag(TG)));
                }
                v(x);
                if *data {
                    x.push(Ev::TaggedEnd(Meta::tag(TG)));
                }
                x.push(match to {
                    Target::RT => Ev::RTVE(tag.clone(), label.clone(), index),
                    Target::Rec => Ev::RecVE(tag.clone(), label.clone()),
                    Target::Tup => Ev::TupVE(tag.clone(), index),
                    _ => Ev::SeqVE,
                });
            }
            Sh::Flat(v) => {
                let mut y = vec![];
                v(&mut y);
                let (evs, n) = flat::flatten(&y, to, if to == Target::Seq { 0 } else { next });
                x.extend(evs);
                next = n;
            }
        }
    }
    match to {
        Target::RT => x.push(Ev::RTEnd(m)),
        Target::Rec => x.push(Ev::RecEnd(m)),
        Target::Tup => x.push(Ev::TupEnd(m)),
        _ => {
            x.push(Ev::SeqEnd);
            x.push(Ev::TaggedEnd(m));
        }
    }
}

#[derive(Value)]

pub struct S0<T>(T);
impl<T: Item> Item for S0<T> {
    fn arb(g: &mut Gen) -> Self { S0(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: None, label: Some(L::ident("S0")), index: None }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(label = LBL)]
#[allow(non_snake_case)]
pub struct S1 { #[sval(tag = TG)] #[sval(index = 7)] #[sval(label = LBL)] r#self_: u128, #[sval(tag = TG)] #[sval(skip)] #[allow(dead_code)] __sval: (), c: u8 }
impl Item for S1 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S1 { r#self_: Item::arb(g), __sval: Item::arb(g), c: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S1 { r#self_: v0, __sval: _, c: v2 } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("a const label")), index: None }, &mut [Sh::Own(Some(TG), false, L::stat("a const label"), Ix::At(7), &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("c"), Ix::At(8), &mut |x| v2.want(x))])
    }
}

#[derive(Value)]
#[sval(index = 255isize)]
#[allow(non_snake_case)]
pub struct S2 { #[sval(skip, index = 3)] #[allow(dead_code)] __sval: bool, #[sval(tag = self::TG)] #[sval(skip = false)] #[sval(index = 7isize)] #[sval(label = LBL)] stream: Option<String> }
impl Item for S2 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S2 { __sval: Item::arb(g), stream: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S2 { __sval: _, stream: v1 } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::ident("S2")), index: Some(at(255)) }, &mut [Sh::Own(Some(TG), false, L::stat("a const label"), Ix::At(7), &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(tag = "TG", label = LBL)]
#[allow(non_snake_case)]
pub struct S3 { #[sval(skip = true)] #[allow(dead_code)] label: String, #[sval(flatten = true)] index: BTreeMap<String, u8> }
impl Item for S3 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S3 { label: Item::arb(g), index: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S3 { label: _, index: v1 } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: None }, &mut [Sh::Flat(&mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(label = "new\nline")]
pub struct S4(u8);
impl Item for S4 {
    fn arb(g: &mut Gen) -> Self { S4(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: None, label: Some(L::stat("new\nline")), index: None }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(tag = self::TG)]
#[allow(non_snake_case)]
pub struct S5 { #[sval(flatten = false)] a: i64, #[sval(tag = self::TG, skip)] #[allow(dead_code)] r#fn: i64 }
impl Item for S5 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S5 { a: Item::arb(g), r#fn: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S5 { a: v0, r#fn: _ } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("S5")), index: None }, &mut [Sh::Own(None, false, L::ident("a"), Ix::Next, &mut |x| v0.want(x))])
    }
}

#[derive(Value)]
#[sval(unindexed_fields = false, index = 2)]
#[allow(non_snake_case)]
pub struct S6 { Upper: char }
impl Item for S6 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S6 { Upper: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S6 { Upper: v0 } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::ident("S6")), index: Some(at(2)) }, &mut [Sh::Own(None, false, L::ident("Upper"), Ix::Next, &mut |x| v0.want(x))])
    }
}

#[derive(Value)]
#[sval(index = self::IDX, label = self::LBL)]
pub struct S7;
impl Item for S7 {
    fn arb(_: &mut Gen) -> Self { S7 }
    fn want(&self, x: &mut Vec<Ev>) { x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(1000)) })) }
}

#[derive(Value)]
#[sval(index = -7)]
pub struct S8(f32);
impl Item for S8 {
    fn arb(g: &mut Gen) -> Self { S8(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: None, label: Some(L::ident("S8")), index: Some(at(-7)) }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(tag = TG)]
pub struct S9((u8, bool));
impl Item for S9 {
    fn arb(g: &mut Gen) -> Self { S9(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: Some(TG), label: Some(L::ident("S9")), index: None }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(unindexed_fields = true)]
#[allow(non_snake_case)]
pub struct S10 { #[sval(data_tag = "self::TG", label = "back\\slash")] sval_index: char, label: String }
impl Item for S10 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S10 { sval_index: Item::arb(g), label: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S10 { sval_index: v0, label: v1 } = self;
        layout(x, Target::Rec, Meta { tag: None, label: Some(L::ident("S10")), index: None }, &mut [Sh::Own(None, true, L::stat("back\\slash"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("label"), Ix::None, &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(tag = "TG", index = 40isize, label = "ünï")]
#[allow(non_snake_case)]
pub struct S11 { #[sval(skip = false)] #[sval(label = "q\"uote")] value: u8 }
impl Item for S11 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S11 { value: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S11 { value: v0 } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::stat("ünï")), index: Some(at(40)) }, &mut [Sh::Own(None, false, L::stat("q\"uote"), Ix::Next, &mut |x| v0.want(x))])
    }
}

#[derive(Value)]
#[sval(label = LBL, index = 1)]
#[allow(non_snake_case)]
pub struct S12 (f32, #[sval(tag = "self::TG")] f32);
impl Item for S12 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S12 { 0: Item::arb(g), 1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S12 { 0: v0, 1: v1 } = self;
        layout(x, Target::Tup, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(1)) }, &mut [Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::Next, &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(label = LBL, index = 255)]
pub struct S13<T>(T);
impl<T: Item> Item for S13<T> {
    fn arb(g: &mut Gen) -> Self { S13(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(255)) }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(index = 1)]
pub struct S14;
impl Item for S14 {
    fn arb(_: &mut Gen) -> Self { S14 }
    fn want(&self, x: &mut Vec<Ev>) { x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("S14")), index: Some(at(1)) })) }
}

#[derive(Value)]
#[sval(tag = TG)] #[sval(index = IDX)]
#[allow(non_snake_case)]
pub struct S15 {  }
impl Item for S15 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S15 {  } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S15 {  } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("S15")), index: Some(at(1000)) }, &mut [])
    }
}

#[derive(Value)]
#[sval(label = "a")] #[sval(unindexed_fields)] #[sval(tag = "self::TG")]
#[allow(non_snake_case)]
pub struct S16 (#[sval(label = "{}", skip = false, flatten = false)] Option<String>, #[sval(label = LBL, tag = self::TG)] [u8; 2]);
impl Item for S16 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S16 { 0: Item::arb(g), 1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S16 { 0: v0, 1: v1 } = self;
        layout(x, Target::Rec, Meta { tag: Some(TG), label: Some(L::stat("a")), index: None }, &mut [Sh::Own(None, false, L::stat("{}"), Ix::None, &mut |x| v0.want(x)), Sh::Own(Some(TG), false, L::stat("a const label"), Ix::None, &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(index = -1)] #[sval(label = LBL)]
#[allow(non_snake_case)]
pub struct S17 {  }
impl Item for S17 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S17 {  } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S17 {  } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(-1)) }, &mut [])
    }
}

#[derive(Value)]

#[allow(non_snake_case)]
pub struct S18 (#[sval(index = 3, skip)] #[allow(dead_code)] String, #[sval(flatten = false)] #[sval(index = 7)] #[sval(data_tag = self::TG)] [u8; 2], #[sval(skip, flatten = false)] #[allow(dead_code)] u8);
impl Item for S18 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S18 { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S18 { 0: _, 1: v1, 2: _ } = self;
        layout(x, Target::Tup, Meta { tag: None, label: Some(L::ident("S18")), index: None }, &mut [Sh::Own(None, true, nolabel(), Ix::At(7), &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(index = 255isize, unindexed_fields)]
#[allow(non_snake_case)]
pub struct S19<T> (#[sval(flatten = false, skip = true, tag = "TG")] #[allow(dead_code)] T, #[sval(tag = "TG")] String);
impl<T: Item> Item for S19<T> {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S19 { 0: Item::arb(g), 1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S19 { 0: _, 1: v1 } = self;
        layout(x, Target::Seq, Meta { tag: None, label: Some(L::ident("S19")), index: Some(at(255)) }, &mut [Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(label = self::LBL, index = 2)]
#[allow(non_snake_case)]
pub struct S20 ();
impl Item for S20 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S20 {  } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S20 {  } = self;
        layout(x, Target::Tup, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(2)) }, &mut [])
    }
}

#[derive(Value)]
#[sval(unlabeled_fields)]
#[allow(non_snake_case)]
pub struct S21 (#[sval(index = 100000)] #[sval(flatten = false)] #[sval(tag = "TG")] u8, (u8, bool), #[sval(flatten)] (u8, bool));
impl Item for S21 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S21 { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S21 { 0: v0, 1: v1, 2: v2 } = self;
        layout(x, Target::Tup, Meta { tag: None, label: Some(L::ident("S21")), index: None }, &mut [Sh::Own(Some(TG), false, nolabel(), Ix::At(100000), &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::At(100001), &mut |x| v1.want(x)), Sh::Flat(&mut |x| v2.want(x))])
    }
}

#[derive(Value)]
#[sval(index = -7, unlabeled_fields = false, unindexed_fields)]
#[allow(non_snake_case)]
pub struct S22 (#[sval(label = LBL, data_tag = TG, flatten = false, tag = self::TG)] char, #[sval(skip = true)] #[allow(dead_code)] f32);
impl Item for S22 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S22 { 0: Item::arb(g), 1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S22 { 0: v0, 1: _ } = self;
        layout(x, Target::Rec, Meta { tag: None, label: Some(L::ident("S22")), index: Some(at(-7)) }, &mut [Sh::Own(Some(TG), true, L::stat("a const label"), Ix::None, &mut |x| v0.want(x))])
    }
}

#[derive(Value)]
#[sval(unlabeled_fields = true)] #[sval(label = "")]
#[allow(non_snake_case)]
pub struct S23 { #[sval(index = 2isize)] r#match: (), #[sval(data_tag = "self::TG", tag = TG)] c: bool, x1: String }
impl Item for S23 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S23 { r#match: Item::arb(g), c: Item::arb(g), x1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S23 { r#match: v0, c: v1, x1: v2 } = self;
        layout(x, Target::Tup, Meta { tag: None, label: Some(L::stat("")), index: None }, &mut [Sh::Own(None, false, nolabel(), Ix::At(2), &mut |x| v0.want(x)), Sh::Own(Some(TG), true, nolabel(), Ix::At(3), &mut |x| v1.want(x)), Sh::Own(None, false, nolabel(), Ix::At(4), &mut |x| v2.want(x))])
    }
}

#[derive(Value)]
#[sval(unlabeled_fields)] #[sval(label = "type")]
#[allow(non_snake_case)]
pub struct S24 {  }
impl Item for S24 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S24 {  } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S24 {  } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("type")), index: None }, &mut [])
    }
}

#[derive(Value)]
#[sval(label = "0", tag = "self::TG")]
#[allow(non_snake_case)]
pub struct S25<T> (#[sval(data_tag = TG)] T, T, f32);
impl<T: Item> Item for S25<T> {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S25 { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S25 { 0: v0, 1: v1, 2: v2 } = self;
        layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::stat("0")), index: None }, &mut [Sh::Own(None, true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v2.want(x))])
    }
}

#[derive(Value)]
#[sval(index = self::IDX, unindexed_fields, unlabeled_fields = false, tag = self::TG)]
#[allow(non_snake_case)]
pub struct S26 {  }
impl Item for S26 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S26 {  } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S26 {  } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("S26")), index: Some(at(1000)) }, &mut [])
    }
}

#[derive(Value)]

#[allow(non_snake_case)]
pub struct S27 (#[sval(index = self::IDX)] #[sval(skip = false)] char, u128);
impl Item for S27 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S27 { 0: Item::arb(g), 1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S27 { 0: v0, 1: v1 } = self;
        layout(x, Target::Tup, Meta { tag: None, label: Some(L::ident("S27")), index: None }, &mut [Sh::Own(None, false, nolabel(), Ix::At(1000), &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::At(1), &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(unindexed_fields = true)]
#[allow(non_snake_case)]
pub struct S28 { #[sval(tag = self::TG, skip = false, flatten = false)] c: (u8, bool), #[sval(label = "x y")] x1: [u8; 2], label: () }
impl Item for S28 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S28 { c: Item::arb(g), x1: Item::arb(g), label: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S28 { c: v0, x1: v1, label: v2 } = self;
        layout(x, Target::Rec, Meta { tag: None, label: Some(L::ident("S28")), index: None }, &mut [Sh::Own(Some(TG), false, L::ident("c"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::stat("x y"), Ix::None, &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("label"), Ix::None, &mut |x| v2.want(x))])
    }
}

#[derive(Value)]
#[sval(tag = "self::TG")]
#[allow(non_snake_case)]
pub struct S29 { #[sval(skip = true)] #[sval(index = 3)] #[allow(dead_code)] label: i64, r#self_: () }
impl Item for S29 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S29 { label: Item::arb(g), r#self_: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S29 { label: _, r#self_: v1 } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("S29")), index: None }, &mut [Sh::Own(None, false, L::ident("self_"), Ix::Next, &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(tag = "self::TG")] #[sval(label = "back\\slash")]
pub struct S30<T>(T);
impl<T: Item> Item for S30<T> {
    fn arb(g: &mut Gen) -> Self { S30(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: Some(TG), label: Some(L::stat("back\\slash")), index: None }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(tag = "TG")]
pub struct S31(u8);
impl Item for S31 {
    fn arb(g: &mut Gen) -> Self { S31(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: Some(TG), label: Some(L::ident("S31")), index: None }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(tag = "self::TG")] #[sval(unindexed_fields = true)]
#[allow(non_snake_case)]
pub struct S32<T> (#[sval(label = "x y")] #[sval(flatten = false)] T, #[sval(index = 3, skip = true)] #[allow(dead_code)] T);
impl<T: Item> Item for S32<T> {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S32 { 0: Item::arb(g), 1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S32 { 0: v0, 1: _ } = self;
        layout(x, Target::Rec, Meta { tag: Some(TG), label: Some(L::ident("S32")), index: None }, &mut [Sh::Own(None, false, L::stat("x y"), Ix::None, &mut |x| v0.want(x))])
    }
}

#[derive(Value)]
#[sval(transparent = false, index = -300, tag = TG)]
pub struct S33(Option<String>);
impl Item for S33 {
    fn arb(g: &mut Gen) -> Self { S33(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: Some(TG), label: Some(L::ident("S33")), index: Some(at(-300)) }, |x| self.0.want(x)) }
}

#[derive(Value)]
#[sval(unlabeled_fields = false, label = "q\"uote")]
#[allow(non_snake_case)]
pub struct S34<T> { #[sval(skip, index = 3, tag = "self::TG")] #[allow(dead_code)] tag: T, #[sval(tag = "self::TG", data_tag = "self::TG")] x1: Option<u8>, #[sval(skip = true, tag = TG, index = 3)] #[allow(dead_code)] r#type: T, label: T, #[sval(skip = false)] b: u128 }
impl<T: Item> Item for S34<T> {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S34 { tag: Item::arb(g), x1: Item::arb(g), r#type: Item::arb(g), label: Item::arb(g), b: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S34 { tag: _, x1: v1, r#type: _, label: v3, b: v4 } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("q\"uote")), index: None }, &mut [Sh::Own(Some(TG), true, L::ident("x1"), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("label"), Ix::Next, &mut |x| v3.want(x)), Sh::Own(None, false, L::ident("b"), Ix::Next, &mut |x| v4.want(x))])
    }
}

#[derive(Value)]

#[allow(non_snake_case)]
pub struct S35 ();
impl Item for S35 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S35 {  } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S35 {  } = self;
        layout(x, Target::Tup, Meta { tag: None, label: Some(L::ident("S35")), index: None }, &mut [])
    }
}

#[derive(Value)]
#[sval(tag = "TG")]
#[allow(non_snake_case)]
pub struct S36 { a: char }
impl Item for S36 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S36 { a: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S36 { a: v0 } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("S36")), index: None }, &mut [Sh::Own(None, false, L::ident("a"), Ix::Next, &mut |x| v0.want(x))])
    }
}

#[derive(Value)]
#[sval(unindexed_fields = true)]
#[allow(non_snake_case)]
pub struct S37 (#[sval(flatten = false, label = self::LBL, tag = self::TG)] Option<u8>, #[sval(skip = false)] #[sval(label = LBL)] #[sval(flatten = false)] String);
impl Item for S37 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S37 { 0: Item::arb(g), 1: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S37 { 0: v0, 1: v1 } = self;
        layout(x, Target::Rec, Meta { tag: None, label: Some(L::ident("S37")), index: None }, &mut [Sh::Own(Some(TG), false, L::stat("a const label"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::stat("a const label"), Ix::None, &mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(label = "type")]
pub struct S38;
impl Item for S38 {
    fn arb(_: &mut Gen) -> Self { S38 }
    fn want(&self, x: &mut Vec<Ev>) { x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("type")), index: None })) }
}

#[derive(Value)]
#[sval(unlabeled_fields, tag = "TG")]
#[allow(non_snake_case)]
pub struct S39 { #[sval(tag = "self::TG", data_tag = "TG")] field0: Option<u8>, #[sval(flatten = true)] r#type: Raw, #[sval(index = 7, tag = "TG")] r#match: (u8, bool), #[sval(index = 1isize, flatten)] x1: Vec<u8>, #[sval(flatten = false)] index: f32 }
impl Item for S39 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S39 { field0: Item::arb(g), r#type: Item::arb(g), r#match: Item::arb(g), x1: Item::arb(g), index: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S39 { field0: v0, r#type: v1, r#match: v2, x1: v3, index: v4 } = self;
        layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::ident("S39")), index: None }, &mut [Sh::Own(Some(TG), true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::At(7), &mut |x| v2.want(x)), Sh::Flat(&mut |x| v3.want(x)), Sh::Own(None, false, nolabel(), Ix::At(2), &mut |x| v4.want(x))])
    }
}

#[derive(Value)]
#[sval(index = 40)]
pub struct S40([u8; 2]);
impl Item for S40 {
    fn arb(g: &mut Gen) -> Self { S40(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { tg(x, Meta { tag: None, label: Some(L::ident("S40")), index: Some(at(40)) }, |x| self.0.want(x)) }
}

#[derive(Value)]

#[allow(non_snake_case)]
pub struct S41 { #[sval(skip)] #[allow(dead_code)] value: i64, #[sval(tag = TG, flatten = false)] __sval: u128, r#type: [u8; 2], #[sval(flatten = true)] c: Clear<Raw> }
impl Item for S41 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S41 { value: Item::arb(g), __sval: Item::arb(g), r#type: Item::arb(g), c: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S41 { value: _, __sval: v1, r#type: v2, c: v3 } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::ident("S41")), index: None }, &mut [Sh::Own(Some(TG), false, L::ident("__sval"), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("type"), Ix::Next, &mut |x| v2.want(x)), Sh::Flat(&mut |x| v3.want(x))])
    }
}

#[derive(Value)]
#[sval(tag = TG, index = IDX)]
#[allow(non_snake_case)]
pub struct S42 { #[sval(flatten)] #[sval(index = -7)] _under: Dynamic, #[sval(flatten)] #[sval(label = "new\nline")] c: BTreeMap<String, u8> }
impl Item for S42 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S42 { _under: Item::arb(g), c: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S42 { _under: v0, c: v1 } = self;
        layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("S42")), index: Some(at(1000)) }, &mut [Sh::Flat(&mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x))])
    }
}

#[derive(Value)]
#[sval(transparent)]
pub struct S43([u8; 2]);
impl Item for S43 {
    fn arb(g: &mut Gen) -> Self { S43(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { self.0.want(x) }
}

#[derive(Value)]
#[sval(transparent = true)]
pub struct S44(String);
impl Item for S44 {
    fn arb(g: &mut Gen) -> Self { S44(Item::arb(g)) }
    fn want(&self, x: &mut Vec<Ev>) { self.0.want(x) }
}

#[derive(Value)]
#[sval(index = -300, label = LBL)]
#[allow(non_snake_case)]
pub struct S45 { #[sval(index = 3, flatten = false, skip = true)] #[allow(dead_code)] field1: u128, #[sval(skip)] #[allow(dead_code)] stream: Option<u8>, r#type: (u8, bool), #[sval(label = "0")] #[sval(data_tag = self::TG)] #[sval(index = IDX)] field0: char }
impl Item for S45 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S45 { field1: Item::arb(g), stream: Item::arb(g), r#type: Item::arb(g), field0: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S45 { field1: _, stream: _, r#type: v2, field0: v3 } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(-300)) }, &mut [Sh::Own(None, false, L::ident("type"), Ix::Next, &mut |x| v2.want(x)), Sh::Own(None, true, L::stat("0"), Ix::At(1000), &mut |x| v3.want(x))])
    }
}

#[derive(Value)]
#[sval(tag = self::TG, label = self::LBL, unindexed_fields)]
#[allow(non_snake_case)]
pub struct S46 { label: Vec<u8>, b: u128, #[sval(flatten)] sval_index: Clear<Raw> }
impl Item for S46 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S46 { label: Item::arb(g), b: Item::arb(g), sval_index: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S46 { label: v0, b: v1, sval_index: v2 } = self;
        layout(x, Target::Rec, Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: None }, &mut [Sh::Own(None, false, L::ident("label"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("b"), Ix::None, &mut |x| v1.want(x)), Sh::Flat(&mut |x| v2.want(x))])
    }
}

#[derive(Value)]
#[sval(label = "new\nline")]
#[allow(non_snake_case)]
pub struct S47 { #[sval(tag = TG)] __sval: Vec<u8>, #[sval(flatten = true)] x1: Dynamic, #[sval(data_tag = "TG", skip = false, label = "0")] _under: f32 }
impl Item for S47 {
    fn arb(g: &mut Gen) -> Self { let _ = &g; S47 { __sval: Item::arb(g), x1: Item::arb(g), _under: Item::arb(g) } }
    fn want(&self, x: &mut Vec<Ev>) {
        let S47 { __sval: v0, x1: v1, _under: v2 } = self;
        layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("new\nline")), index: None }, &mut [Sh::Own(Some(TG), false, L::ident("__sval"), Ix::Next, &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x)), Sh::Own(None, true, L::stat("0"), Ix::Next, &mut |x| v2.want(x))])
    }
}

#[derive(Value)]
#[sval(tag = self::TG, unlabeled_variants = true)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E0 {
    #[sval(index = 2isize)] B,
    #[sval(tag = "TG")] Some,
    #[sval(index = -7)] V_1,
    Self_,
    #[sval(label = LBL)] C,
    #[sval(label = "")] #[sval(unlabeled_fields)] #[sval(index = self::IDX)] Ünï (#[sval(data_tag = "TG")] String, #[sval(data_tag = self::TG, flatten = false)] String),
}
impl Item for E0 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(6) {
            0 => E0::B,
            1 => E0::Some,
            2 => E0::V_1,
            3 => E0::Self_,
            4 => E0::C,
            _ => E0::Ünï { 0: Item::arb(g), 1: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("E0")), index: None }, |x| match self {
            E0::B => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(at(2)) })),
            E0::Some => x.push(Ev::Tag(Meta { tag: Some(TG), label: None, index: Some(I::offset(0)) })),
            E0::V_1 => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(at(-7)) })),
            E0::Self_ => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(1)) })),
            E0::C => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(2)) })),
            E0::Ünï { 0: v0, 1: v1 } => layout(x, Target::Tup, Meta { tag: None, label: None, index: Some(at(1000)) }, &mut [Sh::Own(None, true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, true, nolabel(), Ix::Next, &mut |x| v1.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = true)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E1 {
    #[sval(unlabeled_fields = true, unindexed_fields, index = self::IDX)] r#D (Vec<u8>, #[sval(tag = "TG")] char, u128, #[sval(skip = true, flatten = false, tag = "TG")] #[allow(dead_code)] (), #[sval(tag = self::TG)] (u8, bool)),
    #[sval(unlabeled_fields, unindexed_fields = false)] Ok { #[sval(data_tag = "TG", tag = "self::TG")] stream: i64, value: String },
    #[sval(tag = "TG")] None,
    #[sval(label = "{}", unindexed_fields)] Ünï (#[sval(flatten)] Option<PlainTup>, #[sval(flatten = false)] (), #[sval(tag = "self::TG")] #[sval(skip = true)] #[allow(dead_code)] [u8; 2], #[sval(flatten)] Raw, #[sval(index = 3, skip, tag = self::TG)] #[allow(dead_code)] u8),
    #[sval(tag = "TG")] #[sval(label = "q\"uote")] Stream,
}
impl Item for E1 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E1::r#D { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g), 4: Item::arb(g) },
            1 => E1::Ok { stream: Item::arb(g), value: Item::arb(g) },
            2 => E1::None,
            3 => E1::Ünï { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g), 4: Item::arb(g) },
            _ => E1::Stream,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E1")), index: None }, |x| match self {
            E1::r#D { 0: v0, 1: v1, 2: v2, 3: _, 4: v4 } => layout(x, Target::Seq, Meta { tag: None, label: None, index: Some(at(1000)) }, &mut [Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v1.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v2.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v4.want(x))]),
            E1::Ok { stream: v0, value: v1 } => layout(x, Target::Tup, Meta { tag: None, label: None, index: Some(I::offset(0)) }, &mut [Sh::Own(Some(TG), true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x))]),
            E1::None => x.push(Ev::Tag(Meta { tag: Some(TG), label: None, index: Some(I::offset(1)) })),
            E1::Ünï { 0: v0, 1: v1, 2: _, 3: v3, 4: _ } => layout(x, Target::Seq, Meta { tag: None, label: None, index: Some(I::offset(2)) }, &mut [Sh::Flat(&mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v1.want(x)), Sh::Flat(&mut |x| v3.want(x))]),
            E1::Stream => x.push(Ev::Tag(Meta { tag: Some(TG), label: None, index: Some(I::offset(3)) })),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = false)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E2 {
    #[sval(label = LBL)] C(()),
    #[sval(tag = self::TG)] #[sval(unindexed_fields = true)] None { #[sval(skip = false)] r#self_: bool, #[sval(label = "0")] stream: bool, #[sval(skip = false)] index: u8 },
    #[sval(index = 100000, tag = "TG")] r#loop((u8, bool)),
    Some,
    #[sval(index = -300)] Self_,
}
impl Item for E2 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E2::C(Item::arb(g)),
            1 => E2::None { r#self_: Item::arb(g), stream: Item::arb(g), index: Item::arb(g) },
            2 => E2::r#loop(Item::arb(g)),
            3 => E2::Some,
            _ => E2::Self_,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E2")), index: None }, |x| match self {
            E2::C(v) => tg(x, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(I::offset(0)) }, |x| v.want(x)),
            E2::None { r#self_: v0, stream: v1, index: v2 } => layout(x, Target::Rec, Meta { tag: Some(TG), label: Some(L::ident("None")), index: Some(I::offset(1)) }, &mut [Sh::Own(None, false, L::ident("self_"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::stat("0"), Ix::None, &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("index"), Ix::None, &mut |x| v2.want(x))]),
            E2::r#loop(v) => tg(x, Meta { tag: Some(TG), label: Some(L::ident("loop")), index: Some(at(100000)) }, |x| v.want(x)),
            E2::Some => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Some")), index: Some(I::offset(2)) })),
            E2::Self_ => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Self_")), index: Some(at(-300)) })),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = false)] #[sval(tag = self::TG)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E3 {
    #[sval(tag = self::TG, index = -300)] B(u8),
    #[sval(index = 2, unindexed_fields, label = "0", tag = "TG")] None (#[sval(data_tag = "self::TG")] u128, #[sval(data_tag = self::TG)] [u8; 2], #[sval(data_tag = "TG", tag = "self::TG")] u8, #[sval(data_tag = TG)] #[sval(skip = false)] bool, char),
    #[sval(index = 40)] V_1,
    #[sval(tag = "TG")] #[sval(label = LBL)] Err (#[sval(skip = false, index = 1)] Option<u8>, #[sval(skip = false)] f32, #[sval(data_tag = "self::TG")] #[sval(skip = false)] i64, #[sval(skip = true)] #[sval(index = 3)] #[sval(flatten = false)] #[allow(dead_code)] Vec<u8>, #[sval(index = 3, skip)] #[allow(dead_code)] u128),
    #[sval(tag = self::TG, label = "new\nline")] Some,
    #[sval(label = "q\"uote")] Stream(bool),
}
impl Item for E3 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(6) {
            0 => E3::B(Item::arb(g)),
            1 => E3::None { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g), 4: Item::arb(g) },
            2 => E3::V_1,
            3 => E3::Err { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g), 4: Item::arb(g) },
            4 => E3::Some,
            _ => E3::Stream(Item::arb(g)),
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("E3")), index: None }, |x| match self {
            E3::B(v) => tg(x, Meta { tag: Some(TG), label: Some(L::ident("B")), index: Some(at(-300)) }, |x| v.want(x)),
            E3::None { 0: v0, 1: v1, 2: v2, 3: v3, 4: v4 } => layout(x, Target::Seq, Meta { tag: Some(TG), label: Some(L::stat("0")), index: Some(at(2)) }, &mut [Sh::Own(None, true, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, true, nolabel(), Ix::None, &mut |x| v1.want(x)), Sh::Own(Some(TG), true, nolabel(), Ix::None, &mut |x| v2.want(x)), Sh::Own(None, true, nolabel(), Ix::None, &mut |x| v3.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v4.want(x))]),
            E3::V_1 => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("V_1")), index: Some(at(40)) })),
            E3::Err { 0: v0, 1: v1, 2: v2, 3: _, 4: _ } => layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: Some(I::offset(0)) }, &mut [Sh::Own(None, false, nolabel(), Ix::At(1), &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::At(2), &mut |x| v1.want(x)), Sh::Own(None, true, nolabel(), Ix::At(3), &mut |x| v2.want(x))]),
            E3::Some => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("new\nline")), index: Some(I::offset(1)) })),
            E3::Stream(v) => tg(x, Meta { tag: None, label: Some(L::stat("q\"uote")), index: Some(I::offset(2)) }, |x| v.want(x)),
        })
    }
}

#[derive(Value)]
#[sval(dynamic = true, unlabeled_variants = false)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E4 {
    #[sval(label = "back\\slash")] Some = DISC,
    #[sval(tag = "self::TG")] #[sval(index = 7)] lower(()) = -137,
    #[sval(tag = TG)] Err { #[sval(flatten = false)] r#type: Option<String>, r#fn: bool, #[sval(skip, tag = "TG")] #[allow(dead_code)] a: u128 },
    #[sval(tag = "self::TG")] V_1 { #[sval(flatten)] #[sval(index = -7)] index: Option<BTreeMap<i64, bool>>, #[sval(label = "a")] #[sval(flatten)] _under: Clear<Raw>, #[sval(tag = TG)] field1: u128, label: String } = -230,
}
impl Item for E4 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(4) {
            0 => E4::Some,
            1 => E4::lower(Item::arb(g)),
            2 => E4::Err { r#type: Item::arb(g), r#fn: Item::arb(g), a: Item::arb(g) },
            _ => E4::V_1 { index: Item::arb(g), _under: Item::arb(g), field1: Item::arb(g), label: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E4::Some => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("back\\slash")), index: None })),
            E4::lower(v) => v.want(x),
            E4::Err { r#type: v0, r#fn: v1, a: _ } => layout(x, Target::RT, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, false, L::ident("type"), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("fn"), Ix::Next, &mut |x| v1.want(x))]),
            E4::V_1 { index: v0, _under: v1, field1: v2, label: v3 } => layout(x, Target::RT, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Flat(&mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x)), Sh::Own(Some(TG), false, L::ident("field1"), Ix::At(-5), &mut |x| v2.want(x)), Sh::Own(None, false, L::ident("label"), Ix::At(-4), &mut |x| v3.want(x))]),
        }
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = false)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E5 {
    #[sval(label = "new\nline")] Self_ (#[sval(tag = TG, index = 2isize)] Option<u8>, #[sval(flatten = false)] #[sval(skip = true)] #[sval(index = 3)] #[allow(dead_code)] (), (), [u8; 2]),
    #[sval(unlabeled_fields = false, unindexed_fields = false, index = 2)] A { #[sval(data_tag = self::TG, skip = false)] field1: u8, #[sval(tag = TG)] #[sval(flatten = false)] c: String, #[sval(data_tag = TG, label = self::LBL)] value: f32, #[sval(data_tag = self::TG)] field0: bool, #[sval(tag = TG, skip = true)] #[allow(dead_code)] stream: Option<u8> } = 101,
    B,
}
impl Item for E5 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => E5::Self_ { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g) },
            1 => E5::A { field1: Item::arb(g), c: Item::arb(g), value: Item::arb(g), field0: Item::arb(g), stream: Item::arb(g) },
            _ => E5::B,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E5")), index: None }, |x| match self {
            E5::Self_ { 0: v0, 1: _, 2: v2, 3: v3 } => layout(x, Target::Tup, Meta { tag: None, label: Some(L::stat("new\nline")), index: Some(I::offset(0)) }, &mut [Sh::Own(Some(TG), false, nolabel(), Ix::At(2), &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::At(3), &mut |x| v2.want(x)), Sh::Own(None, false, nolabel(), Ix::At(4), &mut |x| v3.want(x))]),
            E5::A { field1: v0, c: v1, value: v2, field0: v3, stream: _ } => layout(x, Target::RT, Meta { tag: None, label: Some(L::ident("A")), index: Some(at(2)) }, &mut [Sh::Own(None, true, L::ident("field1"), Ix::Next, &mut |x| v0.want(x)), Sh::Own(Some(TG), false, L::ident("c"), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, true, L::stat("a const label"), Ix::Next, &mut |x| v2.want(x)), Sh::Own(None, true, L::ident("field0"), Ix::Next, &mut |x| v3.want(x))]),
            E5::B => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("B")), index: Some(I::offset(1)) })),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants, tag = self::TG, index = 1, label = "new\nline", unindexed_variants)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E6 {
    Some,
    #[sval(tag = TG)] Ok,
    #[sval(label = LBL, unindexed_fields = false)] C {  } = DISC,
    Ünï(Option<u8>),
}
impl Item for E6 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(4) {
            0 => E6::Some,
            1 => E6::Ok,
            2 => E6::C {  },
            _ => E6::Ünï(Item::arb(g)),
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::stat("new\nline")), index: Some(at(1)) }, |x| match self {
            E6::Some => x.push(Ev::Tag(Meta { tag: None, label: None, index: None })),
            E6::Ok => x.push(Ev::Tag(Meta { tag: Some(TG), label: None, index: None })),
            E6::C {  } => layout(x, Target::RT, Meta { tag: None, label: None, index: None }, &mut []),
            E6::Ünï(v) => tg(x, Meta { tag: None, label: None, index: None }, |x| v.want(x)),
        })
    }
}

#[derive(Value)]
#[sval(dynamic)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E7 {
    #[sval(index = -300)] #[sval(tag = "self::TG")] #[sval(label = "a")] C = DISC,
    #[sval(tag = TG)] #[sval(index = self::IDX)] Ok { #[sval(data_tag = "TG")] tag: [u8; 2] } = 131,
}
impl Item for E7 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(2) {
            0 => E7::C,
            _ => E7::Ok { tag: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E7::C => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("a")), index: Some(at(-300)) })),
            E7::Ok { tag: v0 } => layout(x, Target::RT, Meta { tag: Some(TG), label: None, index: Some(at(1000)) }, &mut [Sh::Own(None, true, L::ident("tag"), Ix::Next, &mut |x| v0.want(x))]),
        }
    }
}

#[derive(Value)]
#[sval(tag = "TG")] #[sval(label = "type")] #[sval(unindexed_variants = false)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E8 {
    lower,
    #[sval(label = "ünï")] Some { #[sval(skip = true)] #[allow(dead_code)] __sval: Option<String>, #[sval(data_tag = "TG")] Upper: (u8, bool), r#type: u128, #[sval(label = "new\nline")] #[sval(data_tag = "self::TG")] value: bool },
}
impl Item for E8 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(2) {
            0 => E8::lower,
            _ => E8::Some { __sval: Item::arb(g), Upper: Item::arb(g), r#type: Item::arb(g), value: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::stat("type")), index: None }, |x| match self {
            E8::lower => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("lower")), index: Some(I::offset(0)) })),
            E8::Some { __sval: _, Upper: v1, r#type: v2, value: v3 } => layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("ünï")), index: Some(I::offset(1)) }, &mut [Sh::Own(None, true, L::ident("Upper"), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("type"), Ix::Next, &mut |x| v2.want(x)), Sh::Own(None, true, L::stat("new\nline"), Ix::Next, &mut |x| v3.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = false, label = self::LBL, index = 3, unindexed_variants = true)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E9 {
    C(char) = 100,
    #[sval(label = "new\nline")] r#D = 208,
}
impl Item for E9 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(2) {
            0 => E9::C(Item::arb(g)),
            _ => E9::r#D,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(3)) }, |x| match self {
            E9::C(v) => tg(x, Meta { tag: None, label: Some(L::ident("C")), index: None }, |x| v.want(x)),
            E9::r#D => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("new\nline")), index: None })),
        })
    }
}

#[derive(Value)]
#[sval(dynamic = true)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E10 {
    #[sval(label = "ünï", tag = "self::TG", unindexed_fields = true)] lower (#[sval(data_tag = self::TG, label = "a")] Vec<u8>, #[sval(tag = "self::TG")] #[sval(index = 3)] #[sval(skip)] #[allow(dead_code)] Option<String>, #[sval(skip = false)] #[sval(label = "0")] #[sval(data_tag = "TG")] bool),
    #[sval(index = IDX)] Err(u8),
    #[sval(label = "new\nline")] r#loop(Option<String>),
    B {  },
    C,
}
impl Item for E10 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E10::lower { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
            1 => E10::Err(Item::arb(g)),
            2 => E10::r#loop(Item::arb(g)),
            3 => E10::B {  },
            _ => E10::C,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E10::lower { 0: v0, 1: _, 2: v2 } => layout(x, Target::Rec, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, true, L::stat("a"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, true, L::stat("0"), Ix::None, &mut |x| v2.want(x))]),
            E10::Err(v) => v.want(x),
            E10::r#loop(v) => v.want(x),
            E10::B {  } => layout(x, Target::RT, Meta { tag: None, label: None, index: None }, &mut []),
            E10::C => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("C")), index: None })),
        }
    }
}

#[derive(Value)]
#[sval(index = 255, tag = TG)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E11 {
    None,
    #[sval(tag = TG)] Stream,
    #[sval(label = "q\"uote", tag = "TG")] Self_,
    B,
    #[sval(tag = self::TG)] #[sval(index = 40)] lower (#[sval(tag = "TG", data_tag = "TG", flatten = false)] (u8, bool), #[sval(flatten)] (u8, bool)),
    #[sval(index = 2isize)] #[sval(label = "x y")] #[sval(tag = "TG")] V_1,
}
impl Item for E11 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(6) {
            0 => E11::None,
            1 => E11::Stream,
            2 => E11::Self_,
            3 => E11::B,
            4 => E11::lower { 0: Item::arb(g), 1: Item::arb(g) },
            _ => E11::V_1,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("E11")), index: Some(at(255)) }, |x| match self {
            E11::None => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("None")), index: Some(I::offset(0)) })),
            E11::Stream => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("Stream")), index: Some(I::offset(1)) })),
            E11::Self_ => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("q\"uote")), index: Some(I::offset(2)) })),
            E11::B => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("B")), index: Some(I::offset(3)) })),
            E11::lower { 0: v0, 1: v1 } => layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::ident("lower")), index: Some(at(40)) }, &mut [Sh::Own(Some(TG), true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x))]),
            E11::V_1 => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("x y")), index: Some(at(2)) })),
        })
    }
}

#[derive(Value)]
#[sval(dynamic = true, unindexed_variants = false)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E12 {
    #[sval(index = IDX)] #[sval(label = "{}")] Ünï((u8, bool)) = -116,
    B,
    Self_ = DISC,
}
impl Item for E12 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => E12::Ünï(Item::arb(g)),
            1 => E12::B,
            _ => E12::Self_,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E12::Ünï(v) => v.want(x),
            E12::B => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("B")), index: None })),
            E12::Self_ => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Self_")), index: None })),
        }
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = true)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E13 {
    lower,
}
impl Item for E13 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(1) {
            _ => E13::lower,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E13")), index: None }, |x| match self {
            E13::lower => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(0)) })),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants, tag = TG, label = "a")]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E14 {
    #[sval(index = 100000)] Some = DISC,
    #[sval(tag = "TG")] Ünï = -129,
    #[sval(index = 100000)] V_1(Vec<u8>) = -237,
    #[sval(label = self::LBL)] Self_,
}
impl Item for E14 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(4) {
            0 => E14::Some,
            1 => E14::Ünï,
            2 => E14::V_1(Item::arb(g)),
            _ => E14::Self_,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::stat("a")), index: None }, |x| match self {
            E14::Some => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(at(100000)) })),
            E14::Ünï => x.push(Ev::Tag(Meta { tag: Some(TG), label: None, index: Some(at(-129)) })),
            E14::V_1(v) => tg(x, Meta { tag: None, label: None, index: Some(at(100000)) }, |x| v.want(x)),
            E14::Self_ => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(at(-128)) })),
        })
    }
}

#[derive(Value)]
#[sval(tag = TG, index = 100000)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E15 {
    Ok,
    #[sval(label = "new\nline")] V_1 { #[sval(skip = false)] _under: Vec<u8>, #[sval(index = 3, skip)] #[allow(dead_code)] r#match: char, #[sval(flatten)] x1: Consts, tag: Option<String>, Upper: u128 },
    Ünï,
    #[sval(tag = "self::TG")] r#D(Vec<u8>),
}
impl Item for E15 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(4) {
            0 => E15::Ok,
            1 => E15::V_1 { _under: Item::arb(g), r#match: Item::arb(g), x1: Item::arb(g), tag: Item::arb(g), Upper: Item::arb(g) },
            2 => E15::Ünï,
            _ => E15::r#D(Item::arb(g)),
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("E15")), index: Some(at(100000)) }, |x| match self {
            E15::Ok => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Ok")), index: Some(I::offset(0)) })),
            E15::V_1 { _under: v0, r#match: _, x1: v2, tag: v3, Upper: v4 } => layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("new\nline")), index: Some(I::offset(1)) }, &mut [Sh::Own(None, false, L::ident("_under"), Ix::Next, &mut |x| v0.want(x)), Sh::Flat(&mut |x| v2.want(x)), Sh::Own(None, false, L::ident("tag"), Ix::Next, &mut |x| v3.want(x)), Sh::Own(None, false, L::ident("Upper"), Ix::Next, &mut |x| v4.want(x))]),
            E15::Ünï => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Ünï")), index: Some(I::offset(2)) })),
            E15::r#D(v) => tg(x, Meta { tag: Some(TG), label: Some(L::ident("D")), index: Some(I::offset(3)) }, |x| v.want(x)),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = false, dynamic)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E16 {
    #[sval(label = "new\nline")] Ok,
    #[sval(label = self::LBL)] None (#[sval(data_tag = "self::TG")] [u8; 2], u128),
    #[sval(tag = "TG", label = "new\nline")] r#loop,
    #[sval(label = self::LBL)] Ünï,
    #[sval(tag = self::TG, unindexed_fields = true)] r#D { #[sval(label = "{}")] #[sval(skip = false)] index: String, #[sval(flatten = false)] #[sval(label = "type")] c: i64, #[sval(data_tag = "TG", tag = self::TG)] _under: Vec<u8> },
}
impl Item for E16 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E16::Ok,
            1 => E16::None { 0: Item::arb(g), 1: Item::arb(g) },
            2 => E16::r#loop,
            3 => E16::Ünï,
            _ => E16::r#D { index: Item::arb(g), c: Item::arb(g), _under: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E16::Ok => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("new\nline")), index: None })),
            E16::None { 0: v0, 1: v1 } => layout(x, Target::Tup, Meta { tag: None, label: None, index: None }, &mut [Sh::Own(None, true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x))]),
            E16::r#loop => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("new\nline")), index: None })),
            E16::Ünï => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("a const label")), index: None })),
            E16::r#D { index: v0, c: v1, _under: v2 } => layout(x, Target::Rec, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, false, L::stat("{}"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::stat("type"), Ix::None, &mut |x| v1.want(x)), Sh::Own(Some(TG), true, L::ident("_under"), Ix::None, &mut |x| v2.want(x))]),
        }
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = false, dynamic)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E17 {
    V_1 (),
}
impl Item for E17 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(1) {
            _ => E17::V_1 {  },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E17::V_1 {  } => layout(x, Target::Tup, Meta { tag: None, label: None, index: None }, &mut []),
        }
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = true, label = LBL)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E18 {
    #[sval(label = self::LBL)] None (#[sval(skip, index = 3)] #[allow(dead_code)] (), #[sval(index = 255)] String),
    #[sval(unindexed_fields)] r#loop { r#type: Vec<u8>, #[sval(flatten = false)] a: () },
    #[sval(label = "", unindexed_fields)] lower (#[sval(flatten = true)] Mixed, #[sval(skip = true)] #[sval(index = 3)] #[allow(dead_code)] Option<String>, u8, #[sval(tag = self::TG)] char, #[sval(skip, index = 3)] #[allow(dead_code)] f32),
    #[sval(unlabeled_fields, index = -7, tag = self::TG, unindexed_fields = true)] Err (i64, (), #[sval(flatten = false)] Vec<u8>),
    A([u8; 2]),
}
impl Item for E18 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E18::None { 0: Item::arb(g), 1: Item::arb(g) },
            1 => E18::r#loop { r#type: Item::arb(g), a: Item::arb(g) },
            2 => E18::lower { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g), 4: Item::arb(g) },
            3 => E18::Err { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
            _ => E18::A(Item::arb(g)),
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::stat("a const label")), index: None }, |x| match self {
            E18::None { 0: _, 1: v1 } => layout(x, Target::Tup, Meta { tag: None, label: None, index: Some(I::offset(0)) }, &mut [Sh::Own(None, false, nolabel(), Ix::At(255), &mut |x| v1.want(x))]),
            E18::r#loop { r#type: v0, a: v1 } => layout(x, Target::Rec, Meta { tag: None, label: None, index: Some(I::offset(1)) }, &mut [Sh::Own(None, false, L::ident("type"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("a"), Ix::None, &mut |x| v1.want(x))]),
            E18::lower { 0: v0, 1: _, 2: v2, 3: v3, 4: _ } => layout(x, Target::Seq, Meta { tag: None, label: None, index: Some(I::offset(2)) }, &mut [Sh::Flat(&mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v2.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v3.want(x))]),
            E18::Err { 0: v0, 1: v1, 2: v2 } => layout(x, Target::Seq, Meta { tag: Some(TG), label: None, index: Some(at(-7)) }, &mut [Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v1.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v2.want(x))]),
            E18::A(v) => tg(x, Meta { tag: None, label: None, index: Some(I::offset(3)) }, |x| v.want(x)),
        })
    }
}

#[derive(Value)]
#[sval(unindexed_variants = true)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E19 {
    #[sval(index = 100000isize, tag = TG)] Stream(i64) = 145,
    Ünï(Option<u8>),
    #[sval(index = 7)] #[sval(label = LBL)] #[sval(tag = "TG")] C (#[sval(index = 3)] Option<u8>, #[sval(tag = "TG")] f32) = 231,
    #[sval(unindexed_fields = false)] lower {  },
    #[sval(label = "x y", tag = "TG")] Self_ { #[sval(tag = TG)] _under: f32, #[sval(tag = "TG")] #[sval(data_tag = "TG")] tag: u128, __sval: Option<String>, #[sval(tag = "TG")] value: Vec<u8>, #[sval(index = 3)] #[sval(skip = true)] #[sval(flatten = false)] #[sval(tag = "TG")] #[allow(dead_code)] Upper: i64 } = 332,
    #[sval(tag = self::TG, unindexed_fields)] A (#[sval(tag = "self::TG")] bool, #[sval(flatten)] PlainRec, #[sval(flatten)] Vec<u8>),
}
impl Item for E19 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(6) {
            0 => E19::Stream(Item::arb(g)),
            1 => E19::Ünï(Item::arb(g)),
            2 => E19::C { 0: Item::arb(g), 1: Item::arb(g) },
            3 => E19::lower {  },
            4 => E19::Self_ { _under: Item::arb(g), tag: Item::arb(g), __sval: Item::arb(g), value: Item::arb(g), Upper: Item::arb(g) },
            _ => E19::A { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E19")), index: None }, |x| match self {
            E19::Stream(v) => tg(x, Meta { tag: Some(TG), label: Some(L::ident("Stream")), index: Some(at(100000)) }, |x| v.want(x)),
            E19::Ünï(v) => tg(x, Meta { tag: None, label: Some(L::ident("Ünï")), index: None }, |x| v.want(x)),
            E19::C { 0: v0, 1: v1 } => layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: Some(at(7)) }, &mut [Sh::Own(None, false, nolabel(), Ix::At(3), &mut |x| v0.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::At(4), &mut |x| v1.want(x))]),
            E19::lower {  } => layout(x, Target::RT, Meta { tag: None, label: Some(L::ident("lower")), index: None }, &mut []),
            E19::Self_ { _under: v0, tag: v1, __sval: v2, value: v3, Upper: _ } => layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::stat("x y")), index: None }, &mut [Sh::Own(Some(TG), false, L::ident("_under"), Ix::Next, &mut |x| v0.want(x)), Sh::Own(Some(TG), true, L::ident("tag"), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("__sval"), Ix::Next, &mut |x| v2.want(x)), Sh::Own(Some(TG), false, L::ident("value"), Ix::Next, &mut |x| v3.want(x))]),
            E19::A { 0: v0, 1: v1, 2: v2 } => layout(x, Target::Seq, Meta { tag: Some(TG), label: Some(L::ident("A")), index: None }, &mut [Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x)), Sh::Flat(&mut |x| v2.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(tag = "self::TG")] #[sval(unlabeled_variants)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E20 {
    #[sval(tag = "self::TG")] None,
    #[sval(label = "new\nline")] A,
    Ok,
    #[sval(index = -2)] #[sval(unindexed_fields = false)] Stream { stream: Option<String>, #[sval(flatten = false)] Upper: String, #[sval(index = -300)] r#match: Option<u8>, r#type: Option<u8> },
    r#D(Option<String>),
    #[sval(tag = "self::TG", index = IDX)] Self_,
}
impl Item for E20 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(6) {
            0 => E20::None,
            1 => E20::A,
            2 => E20::Ok,
            3 => E20::Stream { stream: Item::arb(g), Upper: Item::arb(g), r#match: Item::arb(g), r#type: Item::arb(g) },
            4 => E20::r#D(Item::arb(g)),
            _ => E20::Self_,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("E20")), index: None }, |x| match self {
            E20::None => x.push(Ev::Tag(Meta { tag: Some(TG), label: None, index: Some(I::offset(0)) })),
            E20::A => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(1)) })),
            E20::Ok => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(2)) })),
            E20::Stream { stream: v0, Upper: v1, r#match: v2, r#type: v3 } => layout(x, Target::RT, Meta { tag: None, label: None, index: Some(at(-2)) }, &mut [Sh::Own(None, false, L::ident("stream"), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("Upper"), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("match"), Ix::At(-300), &mut |x| v2.want(x)), Sh::Own(None, false, L::ident("type"), Ix::At(-299), &mut |x| v3.want(x))]),
            E20::r#D(v) => tg(x, Meta { tag: None, label: None, index: Some(I::offset(3)) }, |x| v.want(x)),
            E20::Self_ => x.push(Ev::Tag(Meta { tag: Some(TG), label: None, index: Some(at(1000)) })),
        })
    }
}

#[derive(Value)]
#[sval(label = LBL)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E21 {
    #[sval(unindexed_fields, index = 255, unlabeled_fields = true)] V_1 (Vec<u8>, char, #[sval(tag = "TG")] bool) = DISC,
    #[sval(unlabeled_fields = true, unindexed_fields, tag = "self::TG", index = -2)] C (#[sval(tag = TG)] String, #[sval(data_tag = "TG")] Vec<u8>),
    #[sval(label = "{}")] Ünï = -121,
    #[sval(label = "q\"uote")] Ok,
    #[sval(index = 2)] r#loop(String),
}
impl Item for E21 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E21::V_1 { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
            1 => E21::C { 0: Item::arb(g), 1: Item::arb(g) },
            2 => E21::Ünï,
            3 => E21::Ok,
            _ => E21::r#loop(Item::arb(g)),
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::stat("a const label")), index: None }, |x| match self {
            E21::V_1 { 0: v0, 1: v1, 2: v2 } => layout(x, Target::Seq, Meta { tag: None, label: Some(L::ident("V_1")), index: Some(at(255)) }, &mut [Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v1.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v2.want(x))]),
            E21::C { 0: v0, 1: v1 } => layout(x, Target::Seq, Meta { tag: Some(TG), label: Some(L::ident("C")), index: Some(at(-2)) }, &mut [Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, true, nolabel(), Ix::None, &mut |x| v1.want(x))]),
            E21::Ünï => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("{}")), index: Some(at(-121)) })),
            E21::Ok => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("q\"uote")), index: Some(at(-120)) })),
            E21::r#loop(v) => tg(x, Meta { tag: None, label: Some(L::ident("loop")), index: Some(at(2)) }, |x| v.want(x)),
        })
    }
}

#[derive(Value)]
#[sval(dynamic = true, unlabeled_variants = false)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E22 {
    #[sval(unlabeled_fields = true, index = -1, unindexed_fields = true, tag = TG)] r#loop (#[sval(tag = self::TG)] u128, #[sval(data_tag = "TG")] Option<u8>),
    A (),
    #[sval(index = 0, unindexed_fields)] r#D {  },
}
impl Item for E22 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => E22::r#loop { 0: Item::arb(g), 1: Item::arb(g) },
            1 => E22::A {  },
            _ => E22::r#D {  },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E22::r#loop { 0: v0, 1: v1 } => layout(x, Target::Seq, Meta { tag: Some(TG), label: None, index: Some(at(-1)) }, &mut [Sh::Own(Some(TG), false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, true, nolabel(), Ix::None, &mut |x| v1.want(x))]),
            E22::A {  } => layout(x, Target::Tup, Meta { tag: None, label: None, index: None }, &mut []),
            E22::r#D {  } => layout(x, Target::RT, Meta { tag: None, label: None, index: Some(at(0)) }, &mut []),
        }
    }
}

#[derive(Value)]

#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E23 {
    #[sval(index = -2)] #[sval(tag = "TG")] Some = -112,
    B(Option<String>) = -247,
    #[sval(index = 2isize)] Err([u8; 2]) = -337,
    #[sval(unlabeled_fields, label = "a", tag = "TG")] Ok { __sval: String, b: char },
    #[sval(label = "x y", index = 1)] r#D (#[sval(flatten = false)] #[sval(skip = false)] #[sval(index = 1)] bool, #[sval(data_tag = TG)] [u8; 2], #[sval(skip = true)] #[sval(tag = self::TG)] #[allow(dead_code)] u8),
}
impl Item for E23 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E23::Some,
            1 => E23::B(Item::arb(g)),
            2 => E23::Err(Item::arb(g)),
            3 => E23::Ok { __sval: Item::arb(g), b: Item::arb(g) },
            _ => E23::r#D { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E23")), index: None }, |x| match self {
            E23::Some => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("Some")), index: Some(at(-2)) })),
            E23::B(v) => tg(x, Meta { tag: None, label: Some(L::ident("B")), index: Some(at(-247)) }, |x| v.want(x)),
            E23::Err(v) => tg(x, Meta { tag: None, label: Some(L::ident("Err")), index: Some(at(2)) }, |x| v.want(x)),
            E23::Ok { __sval: v0, b: v1 } => layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::stat("a")), index: Some(at(-246)) }, &mut [Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x))]),
            E23::r#D { 0: v0, 1: v1, 2: _ } => layout(x, Target::Tup, Meta { tag: None, label: Some(L::stat("x y")), index: Some(at(1)) }, &mut [Sh::Own(None, false, nolabel(), Ix::At(1), &mut |x| v0.want(x)), Sh::Own(None, true, nolabel(), Ix::At(2), &mut |x| v1.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(unindexed_variants = false)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E24 {
    Ünï,
    #[sval(tag = "TG")] r#D,
    #[sval(unlabeled_fields = true)] V_1 (#[sval(flatten = false)] #[sval(data_tag = TG)] char, #[sval(index = 0, flatten = true)] (u8, bool), #[sval(index = 3)] #[sval(skip = true)] #[allow(dead_code)] [u8; 2]) = 112,
}
impl Item for E24 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => E24::Ünï,
            1 => E24::r#D,
            _ => E24::V_1 { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E24")), index: None }, |x| match self {
            E24::Ünï => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Ünï")), index: Some(I::offset(0)) })),
            E24::r#D => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("D")), index: Some(I::offset(1)) })),
            E24::V_1 { 0: v0, 1: v1, 2: _ } => layout(x, Target::Tup, Meta { tag: None, label: Some(L::ident("V_1")), index: Some(at(112)) }, &mut [Sh::Own(None, true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(dynamic = true)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E25 {
    #[sval(unindexed_fields = true, tag = TG)] Some { #[sval(data_tag = "self::TG")] #[sval(label = self::LBL)] r#self_: (), #[sval(flatten = false, label = self::LBL)] stream: [u8; 2] },
    #[sval(unlabeled_fields)] #[sval(tag = "self::TG")] Err {  },
}
impl Item for E25 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(2) {
            0 => E25::Some { r#self_: Item::arb(g), stream: Item::arb(g) },
            _ => E25::Err {  },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E25::Some { r#self_: v0, stream: v1 } => layout(x, Target::Rec, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, true, L::stat("a const label"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::stat("a const label"), Ix::None, &mut |x| v1.want(x))]),
            E25::Err {  } => layout(x, Target::RT, Meta { tag: Some(TG), label: None, index: None }, &mut []),
        }
    }
}

#[derive(Value)]
#[sval(label = LBL)] #[sval(index = IDX)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E26 {
    #[sval(tag = self::TG)] r#D,
    #[sval(tag = TG, index = 0)] Stream {  } = -113,
    #[sval(index = self::IDX)] B,
    #[sval(label = LBL)] lower,
    #[sval(label = LBL, index = -7)] Err { #[sval(tag = TG)] #[sval(index = 7)] #[sval(label = "ünï")] value: u128, _under: i64, x1: (u8, bool), #[sval(skip)] #[allow(dead_code)] c: bool, #[sval(skip = false)] Upper: Option<u8> },
    #[sval(index = -7, tag = self::TG)] r#loop,
}
impl Item for E26 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(6) {
            0 => E26::r#D,
            1 => E26::Stream {  },
            2 => E26::B,
            3 => E26::lower,
            4 => E26::Err { value: Item::arb(g), _under: Item::arb(g), x1: Item::arb(g), c: Item::arb(g), Upper: Item::arb(g) },
            _ => E26::r#loop,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(1000)) }, |x| match self {
            E26::r#D => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("D")), index: Some(I::offset(0)) })),
            E26::Stream {  } => layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("Stream")), index: Some(at(0)) }, &mut []),
            E26::B => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("B")), index: Some(at(1000)) })),
            E26::lower => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("a const label")), index: Some(I::offset(1)) })),
            E26::Err { value: v0, _under: v1, x1: v2, c: _, Upper: v4 } => layout(x, Target::RT, Meta { tag: None, label: Some(L::stat("a const label")), index: Some(at(-7)) }, &mut [Sh::Own(Some(TG), false, L::stat("ünï"), Ix::At(7), &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("_under"), Ix::At(8), &mut |x| v1.want(x)), Sh::Own(None, false, L::ident("x1"), Ix::At(9), &mut |x| v2.want(x)), Sh::Own(None, false, L::ident("Upper"), Ix::At(10), &mut |x| v4.want(x))]),
            E26::r#loop => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("loop")), index: Some(at(-7)) })),
        })
    }
}

#[derive(Value)]
#[sval(tag = "TG", unindexed_variants)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E27 {
    Self_,
    #[sval(tag = "TG")] r#D,
    #[sval(tag = self::TG)] Err { Upper: Option<String>, #[sval(tag = "TG", label = self::LBL, data_tag = self::TG)] field0: [u8; 2] } = -141,
}
impl Item for E27 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => E27::Self_,
            1 => E27::r#D,
            _ => E27::Err { Upper: Item::arb(g), field0: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("E27")), index: None }, |x| match self {
            E27::Self_ => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Self_")), index: None })),
            E27::r#D => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("D")), index: None })),
            E27::Err { Upper: v0, field0: v1 } => layout(x, Target::RT, Meta { tag: Some(TG), label: Some(L::ident("Err")), index: None }, &mut [Sh::Own(None, false, L::ident("Upper"), Ix::Next, &mut |x| v0.want(x)), Sh::Own(Some(TG), true, L::stat("a const label"), Ix::Next, &mut |x| v1.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(dynamic = true)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E28 {
    #[sval(label = "")] Self_ { #[sval(flatten = true)] r#self_: Vec<u8>, #[sval(flatten = true, skip = false)] r#fn: Option<PlainTup>, Upper: Option<u8>, #[sval(index = 1)] #[sval(flatten)] r#type: Option<BTreeMap<i64, bool>>, #[sval(label = self::LBL, index = 255)] b: [u8; 2] },
    #[sval(index = -300)] Some,
    #[sval(label = LBL)] C = DISC,
}
impl Item for E28 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => E28::Self_ { r#self_: Item::arb(g), r#fn: Item::arb(g), Upper: Item::arb(g), r#type: Item::arb(g), b: Item::arb(g) },
            1 => E28::Some,
            _ => E28::C,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E28::Self_ { r#self_: v0, r#fn: v1, Upper: v2, r#type: v3, b: v4 } => layout(x, Target::RT, Meta { tag: None, label: None, index: None }, &mut [Sh::Flat(&mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x)), Sh::Own(None, false, L::ident("Upper"), Ix::Next, &mut |x| v2.want(x)), Sh::Flat(&mut |x| v3.want(x)), Sh::Own(None, false, L::stat("a const label"), Ix::At(255), &mut |x| v4.want(x))]),
            E28::Some => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Some")), index: Some(at(-300)) })),
            E28::C => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("a const label")), index: None })),
        }
    }
}

#[derive(Value)]
#[sval(dynamic)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E29 {
    #[sval(tag = TG)] Stream = 127,
    #[sval(label = "x y")] #[sval(unlabeled_fields = false)] V_1 { #[sval(tag = "self::TG")] #[sval(skip = false)] r#self_: u8, #[sval(index = 40)] label: char } = 244,
}
impl Item for E29 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(2) {
            0 => E29::Stream,
            _ => E29::V_1 { r#self_: Item::arb(g), label: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E29::Stream => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("Stream")), index: None })),
            E29::V_1 { r#self_: v0, label: v1 } => layout(x, Target::RT, Meta { tag: None, label: None, index: None }, &mut [Sh::Own(Some(TG), false, L::ident("self_"), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, L::ident("label"), Ix::At(40), &mut |x| v1.want(x))]),
        }
    }
}

#[derive(Value)]
#[sval(unindexed_variants = false)] #[sval(dynamic)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E30 {
    #[sval(tag = "self::TG", unindexed_fields, unlabeled_fields)] r#D (#[sval(index = 3, skip)] #[allow(dead_code)] [u8; 2], f32, #[sval(flatten)] Dynamic, #[sval(skip)] #[allow(dead_code)] f32),
    #[sval(tag = self::TG, index = -1, unindexed_fields)] lower (#[sval(label = "0")] f32, #[sval(label = "0")] f32) = DISC,
    #[sval(tag = self::TG)] A,
}
impl Item for E30 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(3) {
            0 => E30::r#D { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g) },
            1 => E30::lower { 0: Item::arb(g), 1: Item::arb(g) },
            _ => E30::A,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E30::r#D { 0: _, 1: v1, 2: v2, 3: _ } => layout(x, Target::Seq, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v1.want(x)), Sh::Flat(&mut |x| v2.want(x))]),
            E30::lower { 0: v0, 1: v1 } => layout(x, Target::Rec, Meta { tag: Some(TG), label: None, index: Some(at(-1)) }, &mut [Sh::Own(None, false, L::stat("0"), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, L::stat("0"), Ix::None, &mut |x| v1.want(x))]),
            E30::A => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::ident("A")), index: None })),
        }
    }
}

#[derive(Value)]
#[sval(dynamic)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E31 {
    #[sval(tag = TG, label = LBL)] A,
    #[sval(index = -300, tag = "self::TG", unindexed_fields = true)] None (String, Option<u8>),
    #[sval(unindexed_fields = true)] Self_ ((u8, bool), #[sval(flatten = false)] (u8, bool), #[sval(skip = false, data_tag = TG, tag = TG)] f32, #[sval(skip)] #[allow(dead_code)] Option<u8>, #[sval(data_tag = "TG")] String),
    #[sval(label = "0", tag = "self::TG")] r#D { #[sval(index = 2)] index: (), #[sval(flatten)] r#match: BTreeMap<String, u8>, #[sval(label = "new\nline")] c: () },
}
impl Item for E31 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(4) {
            0 => E31::A,
            1 => E31::None { 0: Item::arb(g), 1: Item::arb(g) },
            2 => E31::Self_ { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g), 4: Item::arb(g) },
            _ => E31::r#D { index: Item::arb(g), r#match: Item::arb(g), c: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E31::A => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: None })),
            E31::None { 0: v0, 1: v1 } => layout(x, Target::Seq, Meta { tag: Some(TG), label: None, index: Some(at(-300)) }, &mut [Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v1.want(x))]),
            E31::Self_ { 0: v0, 1: v1, 2: v2, 3: _, 4: v4 } => layout(x, Target::Seq, Meta { tag: None, label: None, index: None }, &mut [Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::None, &mut |x| v1.want(x)), Sh::Own(Some(TG), true, nolabel(), Ix::None, &mut |x| v2.want(x)), Sh::Own(None, true, nolabel(), Ix::None, &mut |x| v4.want(x))]),
            E31::r#D { index: v0, r#match: v1, c: v2 } => layout(x, Target::RT, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, false, L::ident("index"), Ix::At(2), &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x)), Sh::Own(None, false, L::stat("new\nline"), Ix::At(4), &mut |x| v2.want(x))]),
        }
    }
}

#[derive(Value)]
#[sval(unindexed_variants = true)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E32 {
    #[sval(label = self::LBL, tag = "self::TG")] Self_ (bool, #[sval(flatten = false)] f32, #[sval(tag = "TG", skip = false)] Option<String>),
    #[sval(index = IDX)] r#D (#[sval(tag = TG)] (), [u8; 2]),
}
impl Item for E32 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(2) {
            0 => E32::Self_ { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
            _ => E32::r#D { 0: Item::arb(g), 1: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E32")), index: None }, |x| match self {
            E32::Self_ { 0: v0, 1: v1, 2: v2 } => layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::stat("a const label")), index: None }, &mut [Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x)), Sh::Own(Some(TG), false, nolabel(), Ix::Next, &mut |x| v2.want(x))]),
            E32::r#D { 0: v0, 1: v1 } => layout(x, Target::Tup, Meta { tag: None, label: Some(L::ident("D")), index: Some(at(1000)) }, &mut [Sh::Own(Some(TG), false, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(unindexed_variants = true)] #[sval(unlabeled_variants)] #[sval(tag = "self::TG")]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E33 {
    #[sval(label = self::LBL)] Ünï { r#match: f32, #[sval(data_tag = "TG")] #[sval(label = "ünï")] field1: bool },
    V_1(i64),
    #[sval(tag = self::TG)] C { #[sval(index = -1)] Upper: String, #[sval(flatten)] c: MapOf<String, u8> },
    #[sval(label = self::LBL)] Self_,
    #[sval(index = IDX)] Ok,
}
impl Item for E33 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E33::Ünï { r#match: Item::arb(g), field1: Item::arb(g) },
            1 => E33::V_1(Item::arb(g)),
            2 => E33::C { Upper: Item::arb(g), c: Item::arb(g) },
            3 => E33::Self_,
            _ => E33::Ok,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::ident("E33")), index: None }, |x| match self {
            E33::Ünï { r#match: v0, field1: v1 } => layout(x, Target::RT, Meta { tag: None, label: None, index: None }, &mut [Sh::Own(None, false, L::ident("match"), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, true, L::stat("ünï"), Ix::Next, &mut |x| v1.want(x))]),
            E33::V_1(v) => tg(x, Meta { tag: None, label: None, index: None }, |x| v.want(x)),
            E33::C { Upper: v0, c: v1 } => layout(x, Target::RT, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, false, L::ident("Upper"), Ix::At(-1), &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x))]),
            E33::Self_ => x.push(Ev::Tag(Meta { tag: None, label: None, index: None })),
            E33::Ok => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(at(1000)) })),
        })
    }
}

#[derive(Value)]
#[sval(dynamic = true)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E34 {
    lower(()),
}
impl Item for E34 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(1) {
            _ => E34::lower(Item::arb(g)),
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E34::lower(v) => v.want(x),
        }
    }
}

#[derive(Value)]
#[sval(dynamic)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E35 {
    #[sval(label = "0", tag = "self::TG")] r#D = -100,
}
impl Item for E35 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(1) {
            _ => E35::r#D,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E35::r#D => x.push(Ev::Tag(Meta { tag: Some(TG), label: Some(L::stat("0")), index: None })),
        }
    }
}

#[derive(Value)]
#[sval(dynamic)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E36 {
    #[sval(unlabeled_fields, tag = "self::TG")] r#D (Option<String>, #[sval(flatten = false)] (u8, bool), Option<String>, #[sval(skip = true)] #[allow(dead_code)] String, #[sval(data_tag = "self::TG", index = self::IDX)] char) = DISC,
    #[sval(unlabeled_fields = true, label = "a")] Self_ (#[sval(data_tag = "self::TG")] String, #[sval(skip = false, flatten, index = -1)] Raw) = 143,
    Err(char) = 228,
    #[sval(index = 3)] Ünï,
}
impl Item for E36 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(4) {
            0 => E36::r#D { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g), 3: Item::arb(g), 4: Item::arb(g) },
            1 => E36::Self_ { 0: Item::arb(g), 1: Item::arb(g) },
            2 => E36::Err(Item::arb(g)),
            _ => E36::Ünï,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        match self {
            E36::r#D { 0: v0, 1: v1, 2: v2, 3: _, 4: v4 } => layout(x, Target::Tup, Meta { tag: Some(TG), label: None, index: None }, &mut [Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v2.want(x)), Sh::Own(None, true, nolabel(), Ix::At(1000), &mut |x| v4.want(x))]),
            E36::Self_ { 0: v0, 1: v1 } => layout(x, Target::Tup, Meta { tag: None, label: None, index: None }, &mut [Sh::Own(None, true, nolabel(), Ix::Next, &mut |x| v0.want(x)), Sh::Flat(&mut |x| v1.want(x))]),
            E36::Err(v) => v.want(x),
            E36::Ünï => x.push(Ev::Tag(Meta { tag: None, label: Some(L::ident("Ünï")), index: Some(at(3)) })),
        }
    }
}

#[derive(Value)]
#[sval(unindexed_variants = false, label = self::LBL, unlabeled_variants = false)]
#[repr(isize)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E37 {
    #[sval(unlabeled_fields, index = 2, tag = self::TG)] Some (#[sval(flatten = false)] #[sval(index = 3)] #[sval(skip = true)] #[allow(dead_code)] Option<u8>, (), #[sval(data_tag = "self::TG")] String),
}
impl Item for E37 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(1) {
            _ => E37::Some { 0: Item::arb(g), 1: Item::arb(g), 2: Item::arb(g) },
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::stat("a const label")), index: None }, |x| match self {
            E37::Some { 0: _, 1: v1, 2: v2 } => layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::ident("Some")), index: Some(at(2)) }, &mut [Sh::Own(None, false, nolabel(), Ix::Next, &mut |x| v1.want(x)), Sh::Own(None, true, nolabel(), Ix::Next, &mut |x| v2.want(x))]),
        })
    }
}

#[derive(Value)]
#[sval(unlabeled_variants = true, label = "", tag = self::TG)]
#[allow(non_camel_case_types, non_snake_case)]
pub enum E38 {
    Ok,
    #[sval(tag = "self::TG")] Ünï(bool),
    #[sval(index = -2)] Err,
    A,
    #[sval(label = self::LBL)] r#loop,
}
impl Item for E38 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E38::Ok,
            1 => E38::Ünï(Item::arb(g)),
            2 => E38::Err,
            3 => E38::A,
            _ => E38::r#loop,
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: Some(TG), label: Some(L::stat("")), index: None }, |x| match self {
            E38::Ok => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(0)) })),
            E38::Ünï(v) => tg(x, Meta { tag: Some(TG), label: None, index: Some(I::offset(1)) }, |x| v.want(x)),
            E38::Err => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(at(-2)) })),
            E38::A => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(2)) })),
            E38::r#loop => x.push(Ev::Tag(Meta { tag: None, label: None, index: Some(I::offset(3)) })),
        })
    }
}

#[derive(Value)]

#[allow(non_camel_case_types, non_snake_case)]
pub enum E39 {
    #[sval(label = self::LBL)] C,
    #[sval(label = "a")] Stream,
    #[sval(tag = "TG")] #[sval(unlabeled_fields)] r#loop (#[sval(flatten = true)] Option<PlainTup>, #[sval(index = 100000)] String),
    #[sval(index = 7, tag = "self::TG")] A(bool),
    #[sval(index = IDX)] Ok([u8; 2]),
}
impl Item for E39 {
    fn arb(g: &mut Gen) -> Self {
        match g.t.draw(5) {
            0 => E39::C,
            1 => E39::Stream,
            2 => E39::r#loop { 0: Item::arb(g), 1: Item::arb(g) },
            3 => E39::A(Item::arb(g)),
            _ => E39::Ok(Item::arb(g)),
        }
    }
    fn want(&self, x: &mut Vec<Ev>) {
        en(x, Meta { tag: None, label: Some(L::ident("E39")), index: None }, |x| match self {
            E39::C => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("a const label")), index: Some(I::offset(0)) })),
            E39::Stream => x.push(Ev::Tag(Meta { tag: None, label: Some(L::stat("a")), index: Some(I::offset(1)) })),
            E39::r#loop { 0: v0, 1: v1 } => layout(x, Target::Tup, Meta { tag: Some(TG), label: Some(L::ident("loop")), index: Some(I::offset(2)) }, &mut [Sh::Flat(&mut |x| v0.want(x)), Sh::Own(None, false, nolabel(), Ix::At(100000), &mut |x| v1.want(x))]),
            E39::A(v) => tg(x, Meta { tag: Some(TG), label: Some(L::ident("A")), index: Some(at(7)) }, |x| v.want(x)),
            E39::Ok(v) => tg(x, Meta { tag: None, label: Some(L::ident("Ok")), index: Some(at(1000)) }, |x| v.want(x)),
        })
    }
}

const SHAPES: &[fn(&mut Tape, &mut Stats) -> Res] = &[
    item::<S0<u8>>,
    item::<S1>,
    item::<S2>,
    item::<S3>,
    item::<S4>,
    item::<S5>,
    item::<S6>,
    item::<S7>,
    item::<S8>,
    item::<S9>,
    item::<S10>,
    item::<S11>,
    item::<S12>,
    item::<S13<Option<String>>>,
    item::<S14>,
    item::<S15>,
    item::<S16>,
    item::<S17>,
    item::<S18>,
    item::<S19<Option<String>>>,
    item::<S20>,
    item::<S21>,
    item::<S22>,
    item::<S23>,
    item::<S24>,
    item::<S25<Option<String>>>,
    item::<S26>,
    item::<S27>,
    item::<S28>,
    item::<S29>,
    item::<S30<Option<String>>>,
    item::<S31>,
    item::<S32<u8>>,
    item::<S33>,
    item::<S34<Option<String>>>,
    item::<S35>,
    item::<S36>,
    item::<S37>,
    item::<S38>,
    item::<S39>,
    item::<S40>,
    item::<S41>,
    item::<S42>,
    item::<S43>,
    item::<S44>,
    item::<S45>,
    item::<S46>,
    item::<S47>,
    item::<E0>,
    item::<E1>,
    item::<E2>,
    item::<E3>,
    item::<E4>,
    item::<E5>,
    item::<E6>,
    item::<E7>,
    item::<E8>,
    item::<E9>,
    item::<E10>,
    item::<E11>,
    item::<E12>,
    item::<E13>,
    item::<E14>,
    item::<E15>,
    item::<E16>,
    item::<E17>,
    item::<E18>,
    item::<E19>,
    item::<E20>,
    item::<E21>,
    item::<E22>,
    item::<E23>,
    item::<E24>,
    item::<E25>,
    item::<E26>,
    item::<E27>,
    item::<E28>,
    item::<E29>,
    item::<E30>,
    item::<E31>,
    item::<E32>,
    item::<E33>,
    item::<E34>,
    item::<E35>,
    item::<E36>,
    item::<E37>,
    item::<E38>,
    item::<E39>,
];
