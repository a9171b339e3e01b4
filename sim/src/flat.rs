//! Values built with `sval_flatten`, and what flattening must stream.

use crate::ctx;
use crate::ev::*;
use crate::script::*;
use sval::Stream;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Target {
    Map,
    Seq,
    Rec,
    Tup,
    RT,
}

pub const TARGETS: [Target; 5] = [Target::RT, Target::Rec, Target::Tup, Target::Map, Target::Seq];

#[derive(Clone, Debug)]
pub enum Part {
    /// The parent's own entry, named and indexed after its offset.
    Own(Script),
    Flat(Script),
}

/// A parent with some of its parts flattened onto it.
#[derive(Clone, Debug)]
pub struct Flat {
    pub to: Target,
    pub meta: Meta,
    pub parts: Vec<Part>,
}

/// A field to be flattened, streaming into an erased stream so that flattened values can nest without end.
#[derive(Clone, Debug)]
pub struct Er(pub Script);

impl sval::Value for Er {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        let mut s = &mut *s;
        let s: &mut dyn sval_dynamic::Stream<'sval> = &mut s;
        self.0.stream(s)
    }
}

fn own(n: isize) -> String {
    format!("f{n}")
}

impl sval::Value for Flat {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        use sval::{Index, Label};
        let mut n: isize = 0;
        let m = &self.meta;
        match self.to {
            Target::Map => s.map_begin(None)?,
            Target::Seq => s.seq_begin(None)?,
            Target::Rec => m.lend(|t, l, i| s.record_begin(t, l, i, None))?,
            Target::Tup => m.lend(|t, l, i| s.tuple_begin(t, l, i, None))?,
            Target::RT => m.lend(|t, l, i| s.record_tuple_begin(t, l, i, None))?,
        }
        for p in &self.parts {
            ctx::pstep()?;
            match p {
                Part::Own(v) => {
                    let (ls, i) = (own(n), Index::new_isize(n).with_tag(&sval::tags::VALUE_OFFSET));
                    let l = Label::new_computed(&ls);
                    match self.to {
                        Target::Map => {
                            s.map_key_begin()?;
                            s.value_computed(ls.as_str())?;
                            s.map_key_end()?;
                            s.map_value_begin()?;
                            s.value(v)?;
                            s.map_value_end()?;
                        }
                        Target::Seq => {
                            s.seq_value_begin()?;
                            s.value(v)?;
                            s.seq_value_end()?;
                        }
                        Target::Rec => {
                            s.record_value_begin(None, &l)?;
                            s.value(v)?;
                            s.record_value_end(None, &l)?;
                        }
                        Target::Tup => {
                            s.tuple_value_begin(None, &i)?;
                            s.value(v)?;
                            s.tuple_value_end(None, &i)?;
                        }
                        Target::RT => {
                            s.record_tuple_value_begin(None, &l, &i)?;
                            s.value(v)?;
                            s.record_tuple_value_end(None, &l, &i)?;
                        }
                    }
                    n += 1;
                }
                Part::Flat(v) => {
                    // erased, so that flattened values can nest without end
                    let mut s = &mut *s;
                    let s: &mut dyn sval_dynamic::Stream<'sval> = &mut s;
                    match self.to {
                    Target::Map => n = sval_flatten::flatten_to_map(s, v, n)?,
                    Target::Seq => sval_flatten::flatten_to_seq(s, v)?,
                    Target::Rec => n = sval_flatten::flatten_to_record(s, v, n)?,
                    Target::Tup => n = sval_flatten::flatten_to_tuple(s, v, n)?,
                    Target::RT => n = sval_flatten::flatten_to_record_tuple(s, v, n)?,
                }}
            }
        }
        ctx::pstep()?;
        match self.to {
            Target::Map => s.map_end(),
            Target::Seq => s.seq_end(),
            Target::Rec => m.lend(|t, l, i| s.record_end(t, l, i)),
            Target::Tup => m.lend(|t, l, i| s.tuple_end(t, l, i)),
            Target::RT => m.lend(|t, l, i| s.record_tuple_end(t, l, i)),
        }
    }
}

impl Poison for Flat {
    fn poison(&mut self) {
        if let Some(l) = &mut self.meta.label {
            ctx::poison_str(&mut l.text);
        }
        for p in &mut self.parts {
            match p {
                Part::Own(s) | Part::Flat(s) => s.poison(),
            }
        }
    }
}

pub fn begin(x: &mut X, to: Target, meta: &Meta) {
    x.push_raw(match to {
        Target::Map => Ev::MapBegin(None),
        Target::Seq => Ev::SeqBegin(None),
        Target::Rec => Ev::RecBegin(meta.clone(), None),
        Target::Tup => Ev::TupBegin(meta.clone(), None),
        Target::RT => Ev::RTBegin(meta.clone(), None),
    })
}

pub fn end(x: &mut X, to: Target, meta: &Meta) {
    x.push_raw(match to {
        Target::Map => Ev::MapEnd,
        Target::Seq => Ev::SeqEnd,
        Target::Rec => Ev::RecEnd(meta.clone()),
        Target::Tup => Ev::TupEnd(meta.clone()),
        Target::RT => Ev::RTEnd(meta.clone()),
    })
}

fn computed(s: String) -> L {
    L { text: s, stat: None, tag: None }
}

fn at(n: i128) -> I {
    I { val: n, tag: Some(sval::tags::VALUE_OFFSET) }
}

impl Flat {
    pub fn expand(&self, x: &mut X) -> Result<(), Stop> {
        let mut n = 0i128;
        begin(x, self.to, &self.meta);
        for p in &self.parts {
            x.step()?;
            match p {
                Part::Own(s) => {
                    let mut f = F::new(&[], self.to, n);
                    f.open(None, &computed(own(n as isize)), &at(n));
                    f.out.drain(..).for_each(|e| x.push_raw(e));
                    x.script(s)?;
                    f.close(None, &computed(own(n as isize)), &at(n));
                    f.out.drain(..).for_each(|e| x.push_raw(e));
                    n += 1;
                }
                Part::Flat(s) => n = splice(x, self.to, n, s)?,
            }
        }
        x.step()?;
        end(x, self.to, &self.meta);
        Ok(())
    }
}

/// Expand `s` flattened onto `to`, which has `n` entries.
pub fn splice(x: &mut X, to: Target, n: i128, s: &Script) -> Result<i128, Stop> {
    let mut y = X { out: vec![], computed: x.computed, step: x.step, fail_at: x.fail_at };
    let r = y.script(s);
    x.step = y.step;
    let (evs, n) = flatten(&y.out, to, if to == Target::Seq { 0 } else { n });
    evs.into_iter().for_each(|e| x.push_raw(e));
    r.map(|_| n)
}

/// What flattening the events of one value (or a prefix of them) onto `to` must stream, and the parent's new length.
pub fn flatten(evs: &[Ev], to: Target, n: i128) -> (Vec<Ev>, i128) {
    let mut f = F::new(evs, to, n);
    f.root();
    (f.out, f.cur)
}

struct F<'a> {
    e: &'a [Ev],
    i: usize,
    to: Target,
    start: i128,
    cur: i128,
    out: Vec<Ev>,
}

fn opens(e: &Ev) -> bool {
    use Ev::*;
    matches!(e, TextBegin(_) | BinBegin(_) | SeqBegin(_) | MapBegin(_) | TaggedBegin(_) | EnumBegin(_) | RecBegin(..) | TupBegin(..) | RTBegin(..))
}

fn closes(e: &Ev) -> bool {
    use Ev::*;
    matches!(e, TextEnd | BinEnd | SeqEnd | MapEnd | TaggedEnd(_) | EnumEnd(_) | RecEnd(_) | TupEnd(_) | RTEnd(_))
}

/// The text a map key stands for as a label.
fn key_text(evs: &[Ev]) -> String {
    let mut s = String::new();
    for e in evs {
        use Ev::*;
        match e {
            Null => s += "null",
            Bool(v) => s += &v.to_string(),
            U8(v) => s += &v.to_string(),
            U16(v) => s += &v.to_string(),
            U32(v) => s += &v.to_string(),
            U64(v) => s += &v.to_string(),
            U128(v) => s += &v.to_string(),
            I8(v) => s += &v.to_string(),
            I16(v) => s += &v.to_string(),
            I32(v) => s += &v.to_string(),
            I64(v) => s += &v.to_string(),
            I128(v) => s += &v.to_string(),
            F32(v) => s += &format!("{:?}", f32::from_bits(*v) as f64),
            F64(v) => s += &format!("{:?}", f64::from_bits(*v)),
            Text(t, _) => s += t,
            Bin(b, _) => b.iter().for_each(|b| s += &b.to_string()),
            Tag(m) => match (&m.label, &m.index) {
                (Some(l), _) => s += &l.text,
                (None, Some(i)) => s += &i.val.to_string(),
                _ => s += "null",
            },
            RecVB(_, l) | RTVB(_, l, _) => s += &l.text,
            _ => {}
        }
    }
    s
}

impl<'a> F<'a> {
    fn new(e: &'a [Ev], to: Target, n: i128) -> F<'a> {
        F { e, i: 0, to, start: n, cur: n, out: vec![] }
    }
    fn next(&mut self) -> Option<&'a Ev> {
        let e = self.e.get(self.i)?;
        self.i += 1;
        Some(e)
    }
    fn hints(&mut self) {
        while let Some(Ev::Hint(_)) = self.e.get(self.i) {
            self.i += 1;
        }
    }
    /// Events up to the end of the enclosing construct, which is left to be read.
    fn body(&mut self, last: impl Fn(&Ev) -> bool) -> &'a [Ev] {
        let (from, mut depth) = (self.i, 0);
        while let Some(e) = self.e.get(self.i) {
            if depth == 0 && last(e) {
                break;
            }
            if opens(e) {
                depth += 1;
            }
            if closes(e) {
                depth -= 1;
            }
            self.i += 1;
        }
        &self.e[from..self.i]
    }
    fn root(&mut self) {
        use Ev::*;
        self.hints();
        match self.next() {
            None => {}
            Some(TextBegin(_)) | Some(BinBegin(_)) => {
                self.body(|e| matches!(e, TextEnd | BinEnd));
                self.i += 1;
            }
            Some(TaggedBegin(_)) => {
                self.root();
                self.hints();
                self.i += 1;
            }
            Some(EnumBegin(_)) => {
                self.hints();
                match self.e.get(self.i) {
                    Some(EnumEnd(_)) | None => {}
                    Some(TaggedBegin(m)) => {
                        self.i += 1;
                        let ix = self.alloc(m.index.as_ref());
                        let l = m.label.clone().unwrap_or_else(|| computed(ix.val.to_string()));
                        self.entry(None, l, ix, |e| matches!(e, TaggedEnd(_)));
                    }
                    _ => self.root(),
                }
                self.hints();
                self.i += 1;
            }
            Some(SeqBegin(_) | MapBegin(_) | RecBegin(..) | TupBegin(..) | RTBegin(..)) => self.entries(),
            Some(_) => {}
        }
    }
    fn entries(&mut self) {
        use Ev::*;
        let mut key = String::new();
        while let Some(e) = self.next() {
            match e {
                SeqVB => {
                    let ix = self.alloc(None);
                    self.entry(None, computed(ix.val.to_string()), ix, |e| matches!(e, SeqVE))
                }
                MapKB => {
                    let k = self.body(|e| matches!(e, MapKE));
                    let end = self.next();
                    match self.to {
                        Target::Map => {
                            self.out.push(MapKB);
                            self.out.extend_from_slice(k);
                            self.out.extend(end.cloned());
                        }
                        _ => key = key_text(k),
                    }
                }
                MapVB => {
                    let ix = self.alloc(None);
                    if self.to == Target::Map {
                        self.out.push(MapVB);
                        let b = self.body(|e| matches!(e, MapVE));
                        self.out.extend_from_slice(b);
                        if let Some(e) = self.next() {
                            self.out.push(e.clone());
                            self.cur += 1;
                        }
                    } else {
                        self.entry(None, computed(std::mem::take(&mut key)), ix, |e| matches!(e, MapVE))
                    }
                }
                RecVB(t, l) => {
                    let ix = self.alloc(None);
                    self.entry(t.clone(), l.clone(), ix, |e| matches!(e, RecVE(..)))
                }
                TupVB(t, i) => {
                    let ix = self.alloc(Some(i));
                    self.entry(t.clone(), computed(ix.val.to_string()), ix, |e| matches!(e, TupVE(..)))
                }
                RTVB(t, l, i) => {
                    let ix = self.alloc(Some(i));
                    self.entry(t.clone(), l.clone(), ix, |e| matches!(e, RTVE(..)))
                }
                Hint(_) => self.out.push(e.clone()),
                _ => return,
            }
        }
    }
    /// Offsets continue from the parent's; other indexes stay.
    fn alloc(&self, given: Option<&I>) -> I {
        match given {
            None => at(self.cur),
            Some(i) if i.tag == Some(sval::tags::VALUE_OFFSET) => at(i.val + self.start),
            Some(i) => i.clone(),
        }
    }
    fn entry(&mut self, tag: Option<sval::Tag>, l: L, i: I, last: impl Fn(&Ev) -> bool) {
        self.open(tag.clone(), &l, &i);
        let b = self.body(last);
        self.out.extend_from_slice(b);
        if self.next().is_some() {
            self.close(tag, &l, &i);
            self.cur = if i.val > isize::MAX as i128 { self.cur + 1 } else { i.val + 1 };
        }
    }
    fn open(&mut self, tag: Option<sval::Tag>, l: &L, i: &I) {
        match self.to {
            Target::Map => {
                let text = match l.stat {
                    Some(s) => Ev::Text(s.to_owned(), P::B(s.as_ptr() as usize)),
                    None => Ev::Text(l.text.clone(), P::C),
                };
                self.out.extend([Ev::MapKB, Ev::TextBegin(Some(l.text.len())), text, Ev::TextEnd, Ev::MapKE, Ev::MapVB]);
            }
            Target::Seq => self.out.push(Ev::SeqVB),
            Target::Rec => self.out.push(Ev::RecVB(tag, l.clone())),
            Target::Tup => self.out.push(Ev::TupVB(tag, i.clone())),
            Target::RT => self.out.push(Ev::RTVB(tag, l.clone(), i.clone())),
        }
    }
    fn close(&mut self, tag: Option<sval::Tag>, l: &L, i: &I) {
        self.out.push(match self.to {
            Target::Map => Ev::MapVE,
            Target::Seq => Ev::SeqVE,
            Target::Rec => Ev::RecVE(tag, l.clone()),
            Target::Tup => Ev::TupVE(tag, i.clone()),
            Target::RT => Ev::RTVE(tag, l.clone(), i.clone()),
        })
    }
}
