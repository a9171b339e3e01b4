//! Generation of values and delivery schedules from the tape.

use crate::derived;
use crate::flat;
use crate::ev::*;
use crate::real::*;
use crate::script::*;
use crate::tape::Tape;
use sval::{tags, Tag};

pub const T1: Tag = Tag::new("custom tag");
pub const T2: Tag = Tag::new("t2");

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Keys {
    /// Any value may be a map key.
    Any,
    /// Keys a text format can represent.
    Scalar,
    /// Plain text keys only.
    Text,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub depth: usize,
    pub width: usize,
    pub budget: usize,
    pub kinds: u32,
    pub keys: Keys,
    /// Chance (of 8) that a value is delivered through a route other than inline calls.
    pub hows: usize,
    pub how_mask: u32,
    /// 0: whole text, 1: split, 2: split often
    pub frag: usize,
    pub computed: bool,
    pub tag_hints: bool,
    /// Hints at arbitrary points of the stream.
    pub hint_any: bool,
    pub sizes: usize,
    pub real: bool,
    pub derived: bool,
    pub labels: usize,
    /// Enums directly inside enums.
    pub nested_enum: bool,
    /// Enum variants may be any of the allowed constructs, with or without label/index.
    pub loose_enum: bool,
    /// Enums may have no variant at all.
    pub empty_enum: bool,
    /// Inside a flattened value (whose indexes must leave room for the next one).
    pub flat: bool,
    /// Indexes of enum variants are always present, as offsets.
    pub strict_index: bool,
    /// NUMBER-tagged text.
    pub numbers: bool,
    /// NUMBER-tagged text that isn't a finite number.
    pub nannum: bool,
    /// NUMBER tags on things that aren't text.
    pub misnumbered: bool,
    /// Text tagged as already encoded JSON.
    pub json_tags: bool,
    /// Tagged values may lack a label.
    pub loose_tagged: bool,
    pub wide_text: bool,
    pub nonfinite: bool,
    pub bin: bool,
    /// Tags drawn for metadata (false: none)
    pub tags: bool,
    /// maps may repeat a key
    pub dup_keys: bool,
    /// Nesting as deep as it gets.
    pub chain: bool,
    /// Long texts.
    pub long: bool,
    /// Past 65535 bytes of binary.
    pub huge: bool,
    /// One container with this many plain entries.
    pub crowd: usize,
}

pub mod kind {
    pub const SCALAR: u32 = 1;
    pub const TEXT: u32 = 2;
    pub const BIN: u32 = 4;
    pub const SEQ: u32 = 8;
    pub const MAP: u32 = 16;
    pub const TAG: u32 = 32;
    pub const TAGGED: u32 = 64;
    pub const ENUM: u32 = 128;
    pub const RECORD: u32 = 256;
    pub const TUPLE: u32 = 512;
    pub const RECTUP: u32 = 1024;
    pub const NUMBER: u32 = 2048;
    pub const OPTION: u32 = 4096;
    pub const REAL: u32 = 8192;
    pub const ALL: [u32; 14] = [
        SCALAR, TEXT, BIN, SEQ, MAP, TAG, TAGGED, ENUM, RECORD, TUPLE, RECTUP, NUMBER, OPTION, REAL,
    ];
}

impl Cfg {
    /// Swarm configuration: every run enables its own subset of features.
    pub fn swarm(t: &mut Tape) -> Cfg {
        let mut kinds = 0;
        for k in kind::ALL {
            // present with probability 3/4 (draw 0 = present keeps replays past the end well formed)
            if t.draw(4) != 3 {
                kinds |= k;
            }
        }
        let how_mask = if t.draw(3) == 2 {
            let mut m = 0;
            for i in 0..HOWS.len() {
                if t.draw(2) == 1 {
                    m |= 1 << i;
                }
            }
            m
        } else {
            u32::MAX
        };
        let mut c = Cfg {
            depth: [2, 3, 4, 6, 1][t.draw(5)],
            width: [2, 3, 4, 1, 6][t.draw(5)],
            budget: [30, 60, 12, 120][t.draw(4)],
            kinds,
            keys: Keys::Any,
            hows: [0, 1, 2, 4, 6][t.draw(5)],
            how_mask,
            frag: t.draw(3),
            computed: t.draw(3) != 0,
            tag_hints: t.draw(4) == 3,
            hint_any: t.draw(8) == 7,
            sizes: t.draw(3),
            real: t.draw(3) != 0,
            derived: t.draw(2) == 1,
            labels: t.draw(3),
            nested_enum: false,
            loose_enum: t.draw(3) == 2,
            empty_enum: false,
            flat: false,
            strict_index: false,
            numbers: true,
            nannum: false,
            misnumbered: false,
            json_tags: false,
            loose_tagged: true,
            wide_text: t.draw(3) != 0,
            nonfinite: true,
            bin: true,
            tags: t.draw(3) != 0,
            dup_keys: true,
            chain: false,
            long: false,
            huge: true,
            crowd: 0,
        };
        // now and then, something big: past where a counter, a small buffer or a bit set would end
        match t.draw(128) {
            127 => {
                c.width = [20, 70, 140, 280, 600, 1100][t.draw(6)];
                c.budget = 2 * c.width;
                c.depth = 1 + t.draw(2);
            }
            126 => {
                c.chain = true;
                c.depth = [10, 20, 36, 70, 140, 300][t.draw(6)];
                c.width = 1 + t.draw(2);
                c.budget = c.depth + 20;
            }
            125 => c.long = true,
            _ => {}
        }
        c
    }

    /// Nothing big.
    /// For scenarios that can afford it: now and then, one container past where a 16 bit counter would end.
    pub fn crowded(&mut self, t: &mut Tape) {
        if t.draw(32_768) == 32_767 {
            self.crowd = 66_000;
            self.hint_any = false;
            self.depth = self.depth.max(1);
        }
    }

    /// For scenarios whose cost grows faster than the value.
    pub fn modest(&mut self) {
        self.huge = false;
    }

    pub fn small(&mut self) {
        self.modest();
        if self.chain || self.budget > 120 || self.width > 6 {
            self.chain = false;
            self.depth = self.depth.min(4);
            self.width = self.width.min(4);
            self.budget = self.budget.min(60);
        }
        self.long = false;
    }
}

pub struct Gen<'t> {
    pub t: &'t mut Tape,
    pub c: Cfg,
    pub left: isize,
}

static STATIC_LABELS: [&str; 12] = [
    "a", "b", "field_0", "", "with \"quote\"", "back\\slash", "line\nbreak", "\u{1}ctl", "ünïcode", "a b", "Some",
    "very_long_label_that_does_not_fit_in_small_buffers_0123456789",
];
static IDENTS: [&str; 6] = ["a", "b", "c", "field_0", "Variant", "r_type"];
static WORDS: [&str; 20] = [
    "", "a", "abc", "\"", "\\", "\n", "\t\r\u{8}\u{c}", "\u{0}", "\u{1f}", "\u{7f}", "é", "日本", "😀", "0123456789",
    "</script>", "null", "-1", "\u{2028}", "/", "the quick brown fox jumps over the lazy dog",
];

impl<'t> Gen<'t> {
    pub fn new(t: &'t mut Tape, c: Cfg) -> Gen<'t> {
        let left = c.budget as isize;
        Gen { t, c, left }
    }

    pub fn text(&mut self) -> String {
        if !self.c.wide_text {
            return WORDS[1 + self.t.draw(2)].to_owned();
        }
        let n = [1, 0, 2, 3, 6][self.t.draw(5)];
        let mut s = String::new();
        for _ in 0..n {
            if self.t.chance(1, 8) {
                let c = match self.t.draw(6) {
                    4 => ['\u{301}', '\u{feff}', '\u{fffd}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{200d}', '\u{ad}'][self.t.draw(8)],
                    5 => char::from_u32(0x800 + self.t.draw(0xcfff) as u32).unwrap(),
                    0 => char::from_u32(0x20 + self.t.draw(0x5e) as u32).unwrap(),
                    1 => char::from_u32(self.t.draw(0x20) as u32).unwrap(),
                    2 => char::from_u32(0x80 + self.t.draw(0x700) as u32).unwrap(),
                    _ => char::from_u32(0x10000 + self.t.draw(0x1000) as u32).unwrap(),
                };
                if c != '~' {
                    s.push(c);
                }
            } else {
                s.push_str(WORDS[self.t.draw(WORDS.len())]);
            }
        }
        let long = self.c.long && self.left > 0 && self.t.draw(4) == 3;
        if long || self.t.chance(1, 24) {
            let k = if long { [255, 600, 1030, 4100, 9000, 17000, 33000, 66000][self.t.draw(8)] } else { [16, 64, 200][self.t.draw(3)] };
            if long {
                // not too many of them
                self.left -= 20;
            }
            // over and over, or once, before or after a plain run
            match self.t.draw(4) {
                2 => s.push_str(&"abcdefgh".repeat(k / 8)),
                3 => s.insert_str(0, &"é23456".repeat(k / 7)),
                _ => {
                    let unit = if s.is_empty() { "xy\n".to_owned() } else { s.clone() };
                    while s.len() < k {
                        s.push_str(&unit);
                    }
                }
            }
        }
        s
    }

    pub fn bytes(&mut self) -> Vec<u8> {
        if self.c.long && self.left > 0 && self.t.draw(4) == 3 {
            self.left -= 20;
            let n = [255, 600, 1030, 4100, if self.c.huge { 66_000 } else { 4100 }][[0, 0, 1, 1, 2, 2, 3, 4][self.t.draw(8)]];
            let k = self.t.draw(250) + 1;
            return (0..n).map(|i| (i * k) as u8).collect();
        }
        let n = [0, 1, 2, 3, 5, 9, 20][self.t.draw(7)];
        (0..n)
            .map(|_| match self.t.draw(4) {
                0 => b'a',
                1 => 0,
                2 => 255,
                _ => self.t.draw(256) as u8,
            })
            .collect()
    }

    /// Valid NUMBER text.
    pub fn number(&mut self) -> String {
        let t = &mut *self.t;
        let mut s = String::new();
        s.push_str(["", "-", "+"][t.draw(3)]);
        let int = ["1", "0", "00", "007", "42", "9007199254740993", "340282366920938463463374607431768211456", "10"];
        if self.c.frag > 0 && t.draw(32) == 31 {
            // long runs of zeroes, leading and not
            for (d, n) in [("0", 300), ("3", 3), ("0", 40), ("1", 3)] {
                s.push_str(&d.repeat(t.draw(n)));
            }
        }
        s.push_str(int[t.draw(int.len())]);
        if t.draw(2) == 1 {
            s.push('.');
            s.push_str(["5", "0", "00", "125", "10"][t.draw(5)]);
        }
        if t.draw(3) == 2 {
            s.push_str(["e", "E"][t.draw(2)]);
            s.push_str(["", "+", "-"][t.draw(3)]);
            s.push_str(["1", "0", "5", "12", "007"][t.draw(5)]);
        }
        s
    }

    pub fn split(&mut self, s: &str) -> Vec<(String, P)> {
        let p = |g: &mut Gen| if g.c.computed && g.t.draw(2) == 1 { P::C } else { P::B(0) };
        let cuts = match self.c.frag {
            0 => 0,
            1 => self.t.draw(3),
            // long ones in many pieces, too
            _ if s.len() > 250 => [1, 3, 10, 70, 300][self.t.draw(5)],
            _ => self.t.draw(6),
        };
        if cuts == 0 {
            // an empty text may also have no fragment at all
            if s.is_empty() && self.c.frag > 0 && self.t.draw(2) == 1 {
                return vec![];
            }
            return vec![(s.to_owned(), p(self))];
        }
        let bounds: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let mut at: Vec<usize> = (0..cuts).map(|_| bounds[self.t.draw(bounds.len())]).collect();
        at.push(0);
        at.push(s.len());
        at.sort();
        let mut out = vec![];
        for w in at.windows(2) {
            out.push((s[w[0]..w[1]].to_owned(), p(self)));
        }
        out
    }

    pub fn split_bytes(&mut self, s: &[u8]) -> Vec<(Vec<u8>, P)> {
        let p = |g: &mut Gen| if g.c.computed && g.t.draw(2) == 1 { P::C } else { P::B(0) };
        let cuts = match self.c.frag {
            0 => 0,
            1 => self.t.draw(3),
            // long ones in many pieces, too
            _ if s.len() > 250 => [1, 3, 10, 70, 300][self.t.draw(5)],
            _ => self.t.draw(6),
        };
        if cuts == 0 {
            if s.is_empty() && self.c.frag > 0 && self.t.draw(2) == 1 {
                return vec![];
            }
            return vec![(s.to_owned(), p(self))];
        }
        let mut at: Vec<usize> = (0..cuts).map(|_| self.t.draw(s.len() + 1)).collect();
        at.push(0);
        at.push(s.len());
        at.sort();
        at.windows(2).map(|w| (s[w[0]..w[1]].to_owned(), p(self))).collect()
    }

    fn frags(&mut self, s: &str) -> Frags {
        Frags(self.split(s).into_iter().map(|(s, _)| s).collect())
    }

    /// Text or binary in parts that share their memory.
    fn parts(&mut self) -> Real {
        let text = !self.c.bin || self.t.draw(3) != 2;
        let all = if text { self.text().into_bytes() } else { self.bytes() };
        let at: Vec<usize> = if text {
            std::str::from_utf8(&all).unwrap().char_indices().map(|x| x.0).chain([all.len()]).collect()
        } else {
            (0..all.len() + 1).collect()
        };
        let mut parts = vec![];
        let mut end = 0;
        for _ in 0..self.t.draw(5) {
            let a = if self.t.draw(4) == 3 { at[self.t.draw(at.len())] } else { end };
            let rest: Vec<usize> = at.iter().copied().filter(|x| *x >= a).collect();
            end = rest[self.t.draw(rest.len())];
            parts.push((a, end));
        }
        let size = self.size(0).is_some();
        Real::Parts(Parts { all, parts, text, size })
    }

    pub fn label(&mut self) -> L {
        match self.c.labels {
            0 => L::ident(IDENTS[self.t.draw(IDENTS.len())]),
            _ => {
                let n = if self.c.labels == 1 { 3 } else { 5 };
                match self.t.draw(n) {
                    0 => L::ident(IDENTS[self.t.draw(IDENTS.len())]),
                    1 => L::stat(STATIC_LABELS[self.t.draw(STATIC_LABELS.len())]),
                    2 => {
                        let mut l = L::stat(STATIC_LABELS[self.t.draw(STATIC_LABELS.len())]);
                        l.tag = Some(T2);
                        l
                    }
                    3 => {
                        let i = IDENTS[self.t.draw(IDENTS.len())];
                        L { text: i.to_owned(), stat: None, tag: Some(tags::VALUE_IDENT) }
                    }
                    _ => {
                        let tag = if self.t.draw(3) == 2 { Some(T1) } else { None };
                        L { text: self.text(), stat: None, tag }
                    }
                }
            }
        }
    }

    pub fn index(&mut self, i: usize) -> I {
        match if self.c.labels == 0 { 0 } else { self.t.draw(6) } {
            0 | 1 | 2 => I::offset(i),
            3 => I { val: i as i128, tag: None },
            4 => I { val: i as i128 + 100, tag: Some(T1) },
            _ => {
                let c = [-1i128, i64::MAX as i128, u32::MAX as i128, i64::MIN as i128, i32::MAX as i128 + 1, u64::MAX as i128];
                let val = c[self.t.draw(c.len())];
                if self.c.flat && val == i64::MAX as i128 {
                    return I { val: 77, tag: None };
                }
                I { val, tag: None }
            }
        }
    }

    pub fn tag(&mut self) -> Option<Tag> {
        if !self.c.tags {
            return None;
        }
        match self.t.draw(8) {
            0..=4 => None,
            5 => Some(T1),
            6 => Some(T2),
            _ => Some(tags::CONSTANT_SIZE),
        }
    }

    /// Metadata; `need` demands a label.
    pub fn meta(&mut self, need: bool) -> Meta {
        let tag = self.tag();
        let label = if need || self.t.draw(3) != 2 { Some(self.label()) } else { None };
        let index = if self.t.draw(2) == 1 {
            let n = self.t.draw(4);
            Some(self.index(n))
        } else {
            None
        };
        Meta { tag, label, index }
    }

    pub fn size(&mut self, n: usize) -> Option<usize> {
        match self.c.sizes {
            0 => Some(n),
            1 => None,
            _ => {
                if self.t.draw(2) == 0 {
                    Some(n)
                } else {
                    None
                }
            }
        }
    }

    pub fn int(&mut self) -> i128 {
        const E: [i128; 24] = [
            0, 1, -1, 42, 127, 128, -128, -129, 255, 256, 32767, 65535, 65536, -32768, i32::MAX as i128,
            i32::MIN as i128, u32::MAX as i128, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1,
            u64::MAX as i128, u64::MAX as i128 + 1, i128::MAX, i128::MIN,
        ];
        if self.t.draw(4) == 3 {
            self.t.u64() as i64 as i128
        } else {
            E[self.t.draw(E.len())]
        }
    }

    pub fn f64(&mut self) -> f64 {
        if self.c.flat {
            // floats may become part of a label, whose exact text is not at stake
            return *self.t.pick(&[0.5, 1.0, -1.5, 0.25, 1024.0]);
        }
        const E: [f64; 18] = [
            0.0, 1.0, -1.5, 0.1, -0.0, 1e21, 1e-7, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 123456789.125, 1e16, 3.0,
            9007199254740993.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY,
        ];
        if self.t.draw(5) == 4 {
            let f = f64::from_bits(self.t.u64());
            if self.c.nonfinite || f.is_finite() {
                f
            } else {
                2.5
            }
        } else {
            E[self.t.draw(E.len() - if self.c.nonfinite { 0 } else { 3 })]
        }
    }

    pub fn f32(&mut self) -> f32 {
        if self.c.flat {
            // floats may become part of a label, whose exact text is not at stake
            return *self.t.pick(&[0.5, 1.0, -1.5, 0.25, 1024.0]);
        }
        const E: [f32; 12] = [0.0, 1.0, -1.5, 0.1, -0.0, 1e10, 1e-7, f32::MAX, 3.4e-40, f32::NAN, f32::INFINITY, f32::NEG_INFINITY];
        if self.t.draw(5) == 4 {
            let f = f32::from_bits(self.t.u64() as u32);
            if self.c.nonfinite || f.is_finite() {
                f
            } else {
                2.5
            }
        } else {
            E[self.t.draw(E.len() - if self.c.nonfinite { 0 } else { 3 })]
        }
    }

    pub fn scalar(&mut self) -> Ev {
        match self.t.draw(14) {
            0 => Ev::Null,
            1 => Ev::Bool(self.t.draw(2) == 1),
            2 => Ev::I64(self.int() as i64),
            3 => Ev::U8(self.int() as u8),
            4 => Ev::U16(self.int() as u16),
            5 => Ev::U32(self.int() as u32),
            6 => Ev::U64(self.int() as u64),
            7 => Ev::U128(self.int() as u128),
            8 => Ev::I8(self.int() as i8),
            9 => Ev::I16(self.int() as i16),
            10 => Ev::I32(self.int() as i32),
            11 => Ev::I128(self.int()),
            12 => Ev::F32(self.f32().to_bits()),
            _ => Ev::F64(self.f64().to_bits()),
        }
    }

    fn text_ops(&mut self, s: &str, out: &mut Vec<Op>) {
        let n = self.size(s.len());
        out.push(Op::Call(Ev::TextBegin(n)));
        for (f, p) in self.split(s) {
            if self.c.real && p == P::C && self.t.draw(8) == 7 {
                // a computed fragment written through Display
                out.push(Op::Call(Ev::Text(f, P::C)));
                continue;
            }
            out.push(Op::Call(Ev::Text(f, p)));
        }
        out.push(Op::Call(Ev::TextEnd));
    }

    /// A whole value as a script.
    pub fn script(&mut self) -> Script {
        let mut ops = vec![];
        let d = self.c.depth;
        self.value(d, &mut ops);
        Script { ops }
    }

    pub fn sub(&mut self, depth: usize) -> Script {
        let mut ops = vec![];
        self.value(depth, &mut ops);
        Script { ops }
    }

    fn how(&mut self) -> How {
        if self.c.hows == 0 || self.t.draw(8) < 8 - self.c.hows {
            return How::Inline;
        }
        let h = HOWS[self.t.draw(HOWS.len())];
        if self.c.how_mask & (1 << (h as u32)) == 0 || (!self.c.computed && h.computed()) {
            How::Value
        } else {
            h
        }
    }

    /// A value at a value position, by some delivery route.
    pub fn value(&mut self, depth: usize, out: &mut Vec<Op>) {
        self.left -= 1;
        let how = self.how();
        if how == How::Inline {
            self.inner(depth, out);
        } else {
            let mut ops = vec![];
            self.inner(depth, &mut ops);
            if ops.len() == 1 {
                if let Op::Real(How::Inline, r) = ops.pop().map(|o| { ops.push(o.clone()); o }).unwrap() {
                    out.push(Op::Real(how, r));
                    return;
                }
            }
            out.push(Op::Sub(how, Box::new(Script { ops })));
        }
    }

    /// Once per script, a container past where a 16 bit counter would end.
    fn crowd(&mut self, k: u32, out: &mut Vec<Op>) -> bool {
        let n = self.c.crowd;
        let el = |out: &mut Vec<Op>, i: usize| out.push(Op::Call(if i % 5 == 4 { Ev::Null } else { Ev::U8(i as u8) }));
        let size = |g: &mut Self| g.size(n);
        let label = |i: usize| L::stat(["a", "bb", "ccc"][i % 3]);
        match k {
            kind::SEQ => {
                let size = size(self);
                out.push(Op::Call(Ev::SeqBegin(size)));
                for i in 0..n {
                    out.push(Op::Call(Ev::SeqVB));
                    el(out, i);
                    out.push(Op::Call(Ev::SeqVE));
                }
                out.push(Op::Call(Ev::SeqEnd));
            }
            kind::MAP => {
                let size = size(self);
                out.push(Op::Call(Ev::MapBegin(size)));
                for i in 0..n {
                    out.push(Op::Call(Ev::MapKB));
                    let k = format!("k{i}");
                    out.push(Op::Call(Ev::TextBegin(Some(k.len()))));
                    out.push(Op::Call(Ev::Text(k, P::B(0))));
                    out.push(Op::Call(Ev::TextEnd));
                    out.push(Op::Call(Ev::MapKE));
                    out.push(Op::Call(Ev::MapVB));
                    el(out, i);
                    out.push(Op::Call(Ev::MapVE));
                }
                out.push(Op::Call(Ev::MapEnd));
            }
            kind::RECORD => {
                let size = size(self);
                out.push(Op::Call(Ev::RecBegin(Meta::default(), size)));
                for i in 0..n {
                    out.push(Op::Call(Ev::RecVB(None, label(i))));
                    el(out, i);
                    out.push(Op::Call(Ev::RecVE(None, label(i))));
                }
                out.push(Op::Call(Ev::RecEnd(Meta::default())));
            }
            kind::TUPLE => {
                let size = size(self);
                out.push(Op::Call(Ev::TupBegin(Meta::default(), size)));
                for i in 0..n {
                    out.push(Op::Call(Ev::TupVB(None, I::offset(i))));
                    el(out, i);
                    out.push(Op::Call(Ev::TupVE(None, I::offset(i))));
                }
                out.push(Op::Call(Ev::TupEnd(Meta::default())));
            }
            kind::RECTUP => {
                let size = size(self);
                out.push(Op::Call(Ev::RTBegin(Meta::default(), size)));
                for i in 0..n {
                    out.push(Op::Call(Ev::RTVB(None, label(i), I::offset(i))));
                    el(out, i);
                    out.push(Op::Call(Ev::RTVE(None, label(i), I::offset(i))));
                }
                out.push(Op::Call(Ev::RTEnd(Meta::default())));
            }
            _ => return false,
        }
        self.c.crowd = 0;
        true
    }

    fn inner(&mut self, depth: usize, out: &mut Vec<Op>) {
        if self.c.tag_hints && self.t.draw(6) == 5 {
            let t = [T1, T2, tags::CONSTANT_SIZE][self.t.draw(3)].clone();
            out.push(Op::Call(Ev::Hint(t)));
        }
        let leaf = depth == 0 || self.left <= 0;
        let n = if leaf { 6 } else { 14 };
        const ORDER: [u32; 14] = [
            kind::SCALAR, kind::TEXT, kind::BIN, kind::NUMBER, kind::TAG, kind::REAL, kind::SEQ, kind::MAP,
            kind::TAGGED, kind::ENUM, kind::RECORD, kind::TUPLE, kind::RECTUP, kind::OPTION,
        ];
        let from = if self.c.chain && !leaf { 6 } else { 0 };
        let mut k = ORDER[from + self.t.draw(n - from)];
        if self.c.kinds & k == 0 {
            k = ORDER[from + self.t.draw(n - from)];
        }
        if self.c.kinds & k == 0 {
            k = if self.c.kinds & kind::TEXT != 0 && self.t.draw(2) == 1 { kind::TEXT } else { kind::SCALAR };
        }
        if self.c.crowd > 0 && !leaf && self.crowd(k, out) {
            return;
        }
        match k {
            kind::SCALAR => {
                let e = self.scalar();
                out.push(Op::Call(e))
            }
            kind::TEXT => {
                let s = self.text();
                self.text_ops(&s, out)
            }
            kind::BIN if self.c.bin => {
                let b = self.bytes();
                let n = self.size(b.len());
                out.push(Op::Call(Ev::BinBegin(n)));
                for (f, p) in self.split_bytes(&b) {
                    out.push(Op::Call(Ev::Bin(f, p)));
                }
                out.push(Op::Call(Ev::BinEnd));
            }
            kind::NUMBER if self.c.json_tags && self.t.draw(2) == 1 => self.json_tagged(out),
            kind::NUMBER if self.c.misnumbered && depth > 0 && self.t.draw(4) == 3 => {
                let mut m = Meta::tag(tags::NUMBER);
                if self.t.draw(4) == 3 {
                    m.label = Some(self.label());
                }
                out.push(Op::Call(Ev::TaggedBegin(m.clone())));
                self.value(depth - 1, out);
                out.push(Op::Call(Ev::TaggedEnd(m)));
            }
            kind::NUMBER if self.c.numbers => {
                let s = if self.c.nannum && self.t.draw(4) == 3 {
                    const NONE: [&str; 12] = ["nan", "inf", "-inf", "+inf", "NaN", "Infinity", "-Infinity", "snan", "-nan", "sNaN", "INF", "NAN"];
                    NONE[self.t.draw(NONE.len())].to_owned()
                } else {
                    self.number()
                };
                let mut m = Meta::tag(tags::NUMBER);
                if self.t.draw(4) == 3 {
                    m.label = Some(self.label());
                }
                out.push(Op::Call(Ev::TaggedBegin(m.clone())));
                self.text_ops(&s, out);
                out.push(Op::Call(Ev::TaggedEnd(m)));
            }
            kind::TAG => {
                let m = self.unit_tag();
                out.push(Op::Call(Ev::Tag(m)))
            }
            kind::REAL if self.c.real => self.real(depth, leaf, out),
            kind::SEQ => {
                let at = out.len();
                out.push(Op::Call(Ev::Null));
                let mut n = 0;
                while self.more(n) {
                    out.push(Op::Call(Ev::SeqVB));
                    self.value(depth - 1, out);
                    out.push(Op::Call(Ev::SeqVE));
                    n += 1;
                }
                let sz = self.size(n);
                out[at] = Op::Call(Ev::SeqBegin(sz));
                out.push(Op::Call(Ev::SeqEnd));
            }
            kind::MAP => {
                let at = out.len();
                out.push(Op::Call(Ev::Null));
                let mut n = 0;
                while self.more(n) {
                    out.push(Op::Call(Ev::MapKB));
                    self.key(depth - 1, n, out);
                    out.push(Op::Call(Ev::MapKE));
                    out.push(Op::Call(Ev::MapVB));
                    self.value(depth - 1, out);
                    out.push(Op::Call(Ev::MapVE));
                    n += 1;
                }
                let sz = self.size(n);
                out[at] = Op::Call(Ev::MapBegin(sz));
                out.push(Op::Call(Ev::MapEnd));
            }
            kind::TAGGED => {
                let need = !self.c.loose_tagged;
                let m = self.meta(need);
                out.push(Op::Call(Ev::TaggedBegin(m.clone())));
                self.value(depth - 1, out);
                out.push(Op::Call(Ev::TaggedEnd(m)));
            }
            kind::ENUM => self.enum_(depth, out),
            kind::RECORD => self.record(depth, Meta::default(), out),
            kind::TUPLE => self.tuple(depth, Meta::default(), out),
            kind::RECTUP => self.rectup(depth, Meta::default(), out),
            kind::OPTION => {
                let m = Meta { tag: Some(tags::RUST_OPTION_SOME), label: Some(L::ident("Some")), index: Some(I::offset(1)) };
                out.push(Op::Call(Ev::TaggedBegin(m.clone())));
                self.value(depth - 1, out);
                out.push(Op::Call(Ev::TaggedEnd(m)));
            }
            _ => {
                let e = self.scalar();
                out.push(Op::Call(e))
            }
        }
    }

    /// Text that is marked as being JSON already.
    #[cfg(feature = "full")]
    fn json_tagged(&mut self, out: &mut Vec<Op>) {
        use sval_json::tags as jt;
        const VALUES: [&str; 8] = ["null", "1", "\"a\"", "[]", "{\"a\":[1,true]}", "[1,{\"b\":\"\\n\\u00e9\"}]", "-0.5e10", "\"\\\"\""];
        const TEXTS: [&str; 6] = ["a", "", "\\n", "plain text", "\\u0041\\\"", "é😀"];
        const NUMS: [&str; 7] = ["1", "-1", "0", "0.5", "1e5", "-12.5E-3", "123456789012345678901234567890"];
        let (tag, s, nest) = match self.t.draw(5) {
            0 => (jt::JSON_VALUE, VALUES[self.t.draw(VALUES.len())], None),
            1 => (jt::JSON_TEXT, TEXTS[self.t.draw(TEXTS.len())], None),
            2 => (jt::JSON_NUMBER, NUMS[self.t.draw(NUMS.len())], None),
            3 => (jt::JSON_NUMBER, NUMS[self.t.draw(NUMS.len())], Some(tags::NUMBER)),
            _ => (tags::NUMBER, NUMS[self.t.draw(NUMS.len())], Some(jt::JSON_NUMBER)),
        };
        let mut m = Meta::tag(tag);
        if self.t.draw(4) == 3 {
            m.label = Some(self.label());
        }
        out.push(Op::Call(Ev::TaggedBegin(m.clone())));
        if let Some(t) = nest.clone() {
            out.push(Op::Call(Ev::TaggedBegin(Meta::tag(t))));
        }
        self.text_ops(s, out);
        if let Some(t) = nest {
            out.push(Op::Call(Ev::TaggedEnd(Meta::tag(t))));
        }
        out.push(Op::Call(Ev::TaggedEnd(m)));
    }
    #[cfg(not(feature = "full"))]
    fn json_tagged(&mut self, out: &mut Vec<Op>) {
        out.push(Op::Call(Ev::Null));
    }

    /// Whether a container that has `n` entries gets another one.
    pub fn more(&mut self, n: usize) -> bool {
        n < self.c.width && (n == 0 || self.left > 0) && (self.t.draw(self.c.width + 1) != 0 || self.c.chain && n == 0)
    }

    fn subs(&mut self, d: usize) -> Vec<Script> {
        let mut v = vec![];
        while self.more(v.len()) {
            v.push(self.sub(d));
        }
        v
    }

    pub fn spend(&mut self) {
        self.left -= 1;
    }

    pub fn count(&mut self) -> usize {
        let n = self.t.draw(self.c.width + 1);
        if self.left <= 0 {
            n.min(1)
        } else {
            n
        }
    }

    fn unit_tag(&mut self) -> Meta {
        match self.t.draw(5) {
            0 | 1 => {
                let mut m = self.meta(true);
                if self.t.draw(3) == 2 {
                    m.tag = Some(T1)
                }
                m
            }
            2 => Meta { tag: Some(tags::RUST_OPTION_NONE), label: Some(L::ident("None")), index: Some(I::offset(0)) },
            3 => Meta::tag(tags::RUST_UNIT),
            _ => self.meta(false),
        }
    }

    pub fn key(&mut self, depth: usize, i: usize, out: &mut Vec<Op>) {
        match self.c.keys {
            Keys::Any => {
                let saved = std::mem::replace(&mut self.c.json_tags, false);
                self.value(depth, out);
                self.c.json_tags = saved;
            }
            Keys::Text => {
                let mut s = self.text();
                if !self.c.dup_keys {
                    s.push_str(&format!("{}", i));
                }
                let how = self.how();
                if how == How::Inline {
                    self.text_ops(&s, out)
                } else {
                    let mut ops = vec![];
                    self.text_ops(&s, &mut ops);
                    out.push(Op::Sub(how, Box::new(Script { ops })));
                }
            }
            Keys::Scalar => {
                let mut ops = vec![];
                match self.t.draw(8) {
                    0 | 1 | 2 => {
                        let s = self.text();
                        self.text_ops(&s, &mut ops)
                    }
                    3 => {
                        let e = self.scalar();
                        ops.push(Op::Call(e))
                    }
                    4 => {
                        let m = self.unit_tag();
                        ops.push(Op::Call(Ev::Tag(m)))
                    }
                    5 => {
                        let m = self.meta(true);
                        ops.push(Op::Call(Ev::TaggedBegin(m.clone())));
                        if self.t.draw(2) == 0 {
                            let s = self.text();
                            self.text_ops(&s, &mut ops);
                        } else {
                            let e = self.scalar();
                            ops.push(Op::Call(e));
                        }
                        ops.push(Op::Call(Ev::TaggedEnd(m)));
                    }
                    6 if self.c.kinds & kind::ENUM != 0 => {
                        // unit variant
                        let m = self.meta(true);
                        let v = self.meta(true);
                        ops.push(Op::Call(Ev::EnumBegin(m.clone())));
                        ops.push(Op::Call(Ev::Tag(v)));
                        ops.push(Op::Call(Ev::EnumEnd(m)));
                    }
                    7 if self.c.numbers => {
                        let s = self.number();
                        let m = Meta::tag(tags::NUMBER);
                        ops.push(Op::Call(Ev::TaggedBegin(m.clone())));
                        self.text_ops(&s, &mut ops);
                        ops.push(Op::Call(Ev::TaggedEnd(m)));
                    }
                    _ => {
                        let s = self.text();
                        self.text_ops(&s, &mut ops)
                    }
                }
                let how = self.how();
                if how == How::Inline {
                    out.extend(ops)
                } else {
                    out.push(Op::Sub(how, Box::new(Script { ops })));
                }
            }
        }
    }

    pub fn record(&mut self, depth: usize, meta: Meta, out: &mut Vec<Op>) {
        let meta = if meta == Meta::default() && self.t.draw(2) == 1 { self.meta(false) } else { meta };
        let at = out.len();
        out.push(Op::Call(Ev::Null));
        let mut n = 0;
        while self.more(n) {
            let i = n;
            n += 1;
            let _ = i;
            let (t, l) = (self.tag(), self.label());
            out.push(Op::Call(Ev::RecVB(t.clone(), l.clone())));
            self.value(depth.saturating_sub(1), out);
            out.push(Op::Call(Ev::RecVE(t, l)));
        }
        let sz = self.size(n);
        out[at] = Op::Call(Ev::RecBegin(meta.clone(), sz));
        out.push(Op::Call(Ev::RecEnd(meta)));
    }

    pub fn tuple(&mut self, depth: usize, meta: Meta, out: &mut Vec<Op>) {
        let meta = if meta == Meta::default() && self.t.draw(2) == 1 { self.meta(false) } else { meta };
        let at = out.len();
        out.push(Op::Call(Ev::Null));
        let mut n = 0;
        while self.more(n) {
            let i = n;
            n += 1;
            let _ = i;
            let (t, l) = (self.tag(), self.index(i));
            out.push(Op::Call(Ev::TupVB(t.clone(), l.clone())));
            self.value(depth.saturating_sub(1), out);
            out.push(Op::Call(Ev::TupVE(t, l)));
        }
        let sz = self.size(n);
        out[at] = Op::Call(Ev::TupBegin(meta.clone(), sz));
        out.push(Op::Call(Ev::TupEnd(meta)));
    }

    pub fn rectup(&mut self, depth: usize, meta: Meta, out: &mut Vec<Op>) {
        let meta = if meta == Meta::default() && self.t.draw(2) == 1 { self.meta(false) } else { meta };
        let at = out.len();
        out.push(Op::Call(Ev::Null));
        let mut n = 0;
        while self.more(n) {
            let i = n;
            n += 1;
            let _ = i;
            let (t, l, x) = (self.tag(), self.label(), self.index(i));
            out.push(Op::Call(Ev::RTVB(t.clone(), l.clone(), x.clone())));
            self.value(depth.saturating_sub(1), out);
            out.push(Op::Call(Ev::RTVE(t, l, x)));
        }
        let sz = self.size(n);
        out[at] = Op::Call(Ev::RTBegin(meta.clone(), sz));
        out.push(Op::Call(Ev::RTEnd(meta)));
    }

    fn enum_(&mut self, depth: usize, out: &mut Vec<Op>) {
        let need = !self.c.loose_enum;
        let m = self.meta(need);
        out.push(Op::Call(Ev::EnumBegin(m.clone())));
        if self.c.empty_enum && self.t.draw(8) == 7 {
            out.push(Op::Call(Ev::EnumEnd(m)));
            return;
        }
        let need = !self.c.loose_enum;
        let mut v = self.meta(need);
        if self.c.strict_index && v.index.is_none() {
            v.index = Some(I::offset(1));
        }
        let n = if self.c.nested_enum && depth > 1 { 6 } else { 5 };
        // the variant may itself be delivered by another route
        let how = self.how();
        let mut ops = vec![];
        match self.t.draw(n) {
            0 => ops.push(Op::Call(Ev::Tag(v))),
            1 if self.c.numbers && self.c.tags && self.t.draw(6) == 5 => {
                let mut v = v;
                v.tag = Some(tags::NUMBER);
                let s = self.number();
                ops.push(Op::Call(Ev::TaggedBegin(v.clone())));
                self.text_ops(&s, &mut ops);
                ops.push(Op::Call(Ev::TaggedEnd(v)));
            }
            1 => {
                ops.push(Op::Call(Ev::TaggedBegin(v.clone())));
                self.value(depth - 1, &mut ops);
                ops.push(Op::Call(Ev::TaggedEnd(v)));
            }
            2 => self.record(depth, v, &mut ops),
            3 => self.tuple(depth, v, &mut ops),
            4 => self.rectup(depth, v, &mut ops),
            _ => self.enum_(depth - 1, &mut ops),
        }
        if how == How::Inline {
            out.extend(ops);
        } else {
            out.push(Op::Sub(how, Box::new(Script { ops })));
        }
        out.push(Op::Call(Ev::EnumEnd(m)));
    }

    /// A parent with flattened parts.
    pub fn flat(&mut self, depth: usize, to: Option<flat::Target>) -> flat::Flat {
        let to = to.unwrap_or_else(|| flat::TARGETS[self.t.draw(5)]);
        let meta = match to {
            flat::Target::Map | flat::Target::Seq => Meta::default(),
            _ => self.meta(false),
        };
        let mut parts = vec![];
        let n = 1 + self.t.draw(3);
        for _ in 0..n {
            parts.push(if self.t.draw(3) == 2 {
                flat::Part::Own(self.sub(depth))
            } else {
                let saved = std::mem::replace(&mut self.c.flat, true);
                let s = self.sub(depth);
                self.c.flat = saved;
                flat::Part::Flat(s)
            });
        }
        flat::Flat { to, meta, parts }
    }

    pub fn real(&mut self, depth: usize, leaf: bool, out: &mut Vec<Op>) {
        let n = if leaf { 26 } else { 42 };
        let d = depth.saturating_sub(1);
        let r = match self.t.draw(n) {
            0 => Real::Unit,
            1 => Real::Null,
            2 => Real::Bool(self.t.draw(2) == 1),
            3 => Real::U8(self.int() as u8),
            4 => Real::U16(self.int() as u16),
            5 => Real::U32(self.int() as u32),
            6 => Real::U64(self.int() as u64),
            7 => Real::U128(self.int() as u128),
            8 => Real::I8(self.int() as i8),
            9 => Real::I16(self.int() as i16),
            10 => Real::I32(self.int() as i32),
            11 => Real::I64(self.int() as i64),
            12 => Real::I128(self.int()),
            13 => Real::F32(self.f32()),
            14 => Real::F64(self.f64()),
            15 => {
                let c = ['a', '"', '\n', 'é', '日', '😀', '\0', '\\'];
                Real::Char(*self.t.pick(&c))
            }
            16 if self.c.frag > 0 && self.t.draw(2) == 1 => self.parts(),
            16 => Real::Str(self.text()),
            17 => Real::Str2(self.text().into_boxed_str()),
            18 => {
                let s = self.text();
                Real::Display(self.frags(&s))
            }
            19 => {
                let s = self.text();
                if self.t.draw(2) == 0 {
                    Real::StreamDisplay(self.frags(&s))
                } else {
                    Real::DisplayFragments(self.frags(&s))
                }
            }
            20 if self.c.numbers => {
                let s = self.number();
                Real::Number(self.frags(&s))
            }
            #[cfg(feature = "full")]
            21 => Real::OptText(if self.t.draw(2) == 0 { None } else { Some(self.text()) }),
            22 => Real::OptI32(if self.t.draw(2) == 0 { None } else { Some(self.int() as i32) }),
            23 if self.c.bin => Real::BinSlice(self.bytes()),
            24 if self.c.bin => {
                if self.t.draw(4) == 3 {
                    Real::BinArr0([])
                } else {
                    Real::BinArr3([self.t.draw(256) as u8, 1, 255])
                }
            }
            25 => Real::Bytes(self.bytes()),
            26 => Real::Opt(if self.t.draw(3) == 0 { None } else { Some(self.sub(d)) }),
            27 | 28 => {
                let v = self.subs(d);
                if self.t.draw(2) == 0 {
                    Real::Slice(v)
                } else {
                    Real::Vec(v)
                }
            }
            #[cfg(feature = "full")]
            29 => match self.t.draw(3) {
                0 => Real::Arr0,
                1 => Real::Arr1([Box::new(self.sub(d))]),
                _ => Real::Arr3([Box::new(self.sub(d)), Box::new(self.sub(d)), Box::new(self.sub(d))]),
            },
            30 | 31 => {
                let m = if self.t.draw(4) == 3 { 16 } else { 3 };
                let n = 1 + self.t.draw(m);
                let v = (0..n).map(|_| self.sub(if n > 3 { 0 } else { d })).collect();
                Real::Tup(Tup::new(v))
            }
            32 => {
                let mut v = vec![];
                while self.more(v.len()) {
                    let mut ops = vec![];
                    self.key(d, v.len(), &mut ops);
                    v.push((Script { ops }, self.sub(d)));
                }
                Real::MapSlice(v)
            }
            #[cfg(feature = "full")]
            33 => {
                let mut m = std::collections::BTreeMap::new();
                let mut n = 0;
                while self.more(n) {
                    n += 1;
                    m.insert(self.text(), self.sub(d));
                }
                Real::BTree(m)
            }
            #[cfg(feature = "full")]
            34 => {
                let mut m = std::collections::HashMap::default();
                let mut n = 0;
                while self.more(n) {
                    n += 1;
                    m.insert(self.text(), self.sub(d));
                }
                Real::Hash(m)
            }
            35 => {
                let kind = [RefKind::Slice, RefKind::Vec, RefKind::Arr, RefKind::Tup][self.t.draw(4)];
                let n = match kind {
                    RefKind::Arr => self.t.draw(4),
                    RefKind::Tup => {
                        let m = if self.t.draw(4) == 3 { 16 } else { 3 };
                        1 + self.t.draw(m)
                    }
                    _ => self.count(),
                };
                let v = (0..n).map(|_| self.sub(if n > 4 { 0 } else { d })).collect();
                out.push(Op::RefSeq(kind, v));
                return;
            }
            #[cfg(feature = "full")]
            36 if !leaf => Real::Serde(crate::ser::gen(self, d.min(3))),
            37 if !leaf && cfg!(feature = "full") => Real::Flat(self.flat(d, None)),
            _ if self.c.derived && !leaf => {
                let mut shape = self.t.draw(derived::SHAPES);
                if cfg!(not(feature = "full")) && derived::FLAT.contains(&shape) {
                    // names made while flattening need an allocator (judged where that is expected)
                    shape = 0;
                }
                let saved = self.c.flat;
                self.c.flat |= derived::FLAT.contains(&shape);
                let n = self.int() as i64;
                let txt = self.text();
                let d = derived::build(shape, n, txt, || self.sub(d));
                self.c.flat = saved;
                Real::Derived(d)
            }
            _ => Real::Str(self.text()),
        };
        out.push(Op::Real(How::Inline, Box::new(r)));
    }
}

/// A script from the tape, under a swarm configuration adjusted by `f`.
pub fn script(t: &mut Tape, f: impl FnOnce(&mut Cfg, &mut Tape)) -> Script {
    let mut c = Cfg::swarm(t);
    f(&mut c, t);
    let hint_any = c.hint_any;
    let mut s = Gen::new(t, c).script();
    if hint_any {
        sprinkle(t, &mut s);
    }
    s
}

/// Tag hints are allowed at any point of a stream.
pub fn sprinkle(t: &mut Tape, s: &mut Script) {
    let mut i = 0;
    while i <= s.ops.len() {
        if let Some(op) = s.ops.get_mut(i) {
            match op {
                Op::Sub(_, s) => sprinkle(t, s),
                Op::RefSeq(_, v) => v.iter_mut().for_each(|s| sprinkle(t, s)),
                _ => {}
            }
        }
        if t.draw(6) == 5 {
            let h = [T1, T2, tags::CONSTANT_SIZE, tags::NUMBER][t.draw(4)].clone();
            s.ops.insert(i, Op::Call(Ev::Hint(h)));
            i += 1;
        }
        i += 1;
    }
}

pub fn has_real(s: &Script) -> bool {
    s.ops.iter().any(|o| match o {
        Op::Call(_) => false,
        Op::Sub(_, s) => has_real(s),
        Op::Real(..) => true,
        Op::RefSeq(_, v) => v.iter().any(has_real),
    })
}
