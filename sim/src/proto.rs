//! The protocol as a grammar: events parse into exactly one tree.

use crate::ev::*;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Scalar(Ev),
    Text(String),
    Bin(Vec<u8>),
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
    Tag(Meta),
    Tagged(Meta, Box<N>),
    Enum(Meta, Box<N>),
    /// What an enum without a variant holds.
    Void,
    Rec(Meta, Vec<(Option<sval::Tag>, L, N)>),
    Tup(Meta, Vec<(Option<sval::Tag>, I, N)>),
    RT(Meta, Vec<(Option<sval::Tag>, L, I, N)>),
}

struct Ps<'a> {
    e: &'a [Ev],
    i: usize,
    sizes: bool,
    enums: bool,
    void: bool,
}

type R<T> = Result<T, String>;

impl<'a> Ps<'a> {
    fn peek(&mut self) -> Option<&'a Ev> {
        while let Some(Ev::Hint(_)) = self.e.get(self.i) {
            self.i += 1;
        }
        self.e.get(self.i)
    }
    fn next(&mut self) -> R<&'a Ev> {
        let e = self.peek().ok_or_else(|| "the stream ends inside a value".to_owned())?;
        self.i += 1;
        Ok(e)
    }
    fn bad<T>(&self, what: &str) -> R<T> {
        Err(format!("event #{}: {what}: {:?}", self.i.saturating_sub(1), self.e.get(self.i.saturating_sub(1))))
    }
    fn size(&self, want: &Option<usize>, got: usize, what: &str) -> R<()> {
        match want {
            Some(n) if self.sizes && *n != got => self.bad(&format!("{what} declared {n} but has {got}")),
            _ => Ok(()),
        }
    }
    fn want(&mut self, e: Ev) -> R<()> {
        let g = self.next()?;
        if *g != e {
            return self.bad(&format!("expected {e:?}"));
        }
        Ok(())
    }
    fn value(&mut self) -> R<N> {
        use Ev::*;
        let e = self.next()?;
        Ok(match e {
            Null | Bool(_) | U8(_) | U16(_) | U32(_) | U64(_) | U128(_) | I8(_) | I16(_) | I32(_) | I64(_) | I128(_)
            | F32(_) | F64(_) => N::Scalar(e.clone()),
            Ev::Tag(m) => N::Tag(m.clone()),
            TextBegin(n) => {
                let mut s = String::new();
                loop {
                    match self.next()? {
                        Text(f, _) => s.push_str(f),
                        TextEnd => break,
                        _ => return self.bad("unexpected inside text"),
                    }
                }
                self.size(n, s.len(), "text")?;
                N::Text(s)
            }
            BinBegin(n) => {
                let mut s = vec![];
                loop {
                    match self.next()? {
                        Bin(f, _) => s.extend_from_slice(f),
                        BinEnd => break,
                        _ => return self.bad("unexpected inside binary"),
                    }
                }
                self.size(n, s.len(), "binary")?;
                N::Bin(s)
            }
            SeqBegin(n) => {
                let mut v = vec![];
                loop {
                    match self.next()? {
                        SeqVB => {
                            v.push(self.value()?);
                            self.want(SeqVE)?;
                        }
                        SeqEnd => break,
                        _ => return self.bad("unexpected inside a sequence"),
                    }
                }
                self.size(n, v.len(), "sequence")?;
                N::Seq(v)
            }
            MapBegin(n) => {
                let mut v = vec![];
                loop {
                    match self.next()? {
                        MapKB => {
                            let k = self.value()?;
                            self.want(MapKE)?;
                            self.want(MapVB)?;
                            v.push((k, self.value()?));
                            self.want(MapVE)?;
                        }
                        MapEnd => break,
                        _ => return self.bad("unexpected inside a map"),
                    }
                }
                self.size(n, v.len(), "map")?;
                N::Map(v)
            }
            TaggedBegin(m) => {
                let v = self.value()?;
                self.want(TaggedEnd(m.clone()))?;
                N::Tagged(m.clone(), Box::new(v))
            }
            EnumBegin(m) => {
                if let Some(EnumEnd(x)) = self.peek() {
                    if self.void && x == m {
                        self.i += 1;
                        return Ok(N::Enum(m.clone(), Box::new(N::Void)));
                    }
                }
                match self.peek() {
                    Some(Ev::Tag(_) | TaggedBegin(_) | RecBegin(..) | TupBegin(..) | RTBegin(..) | EnumBegin(_)) => {}
                    _ if self.enums => return self.bad("an enum holds something that is not a variant"),
                    _ => {}
                }
                let v = self.value()?;
                self.want(EnumEnd(m.clone()))?;
                N::Enum(m.clone(), Box::new(v))
            }
            RecBegin(m, n) => {
                let mut v = vec![];
                loop {
                    match self.next()? {
                        RecVB(t, l) => {
                            v.push((t.clone(), l.clone(), self.value()?));
                            self.want(RecVE(t.clone(), l.clone()))?;
                        }
                        RecEnd(x) if x == m => break,
                        _ => return self.bad("unexpected inside a record"),
                    }
                }
                self.size(n, v.len(), "record")?;
                N::Rec(m.clone(), v)
            }
            TupBegin(m, n) => {
                let mut v = vec![];
                loop {
                    match self.next()? {
                        TupVB(t, l) => {
                            v.push((t.clone(), l.clone(), self.value()?));
                            self.want(TupVE(t.clone(), l.clone()))?;
                        }
                        TupEnd(x) if x == m => break,
                        _ => return self.bad("unexpected inside a tuple"),
                    }
                }
                self.size(n, v.len(), "tuple")?;
                N::Tup(m.clone(), v)
            }
            RTBegin(m, n) => {
                let mut v = vec![];
                loop {
                    match self.next()? {
                        RTVB(t, l, i) => {
                            v.push((t.clone(), l.clone(), i.clone(), self.value()?));
                            self.want(RTVE(t.clone(), l.clone(), i.clone()))?;
                        }
                        RTEnd(x) if x == m => break,
                        _ => return self.bad("unexpected inside a record tuple"),
                    }
                }
                self.size(n, v.len(), "record tuple")?;
                N::RT(m.clone(), v)
            }
            _ => return self.bad("unexpected at the start of a value"),
        })
    }
}

fn parse_with(evs: &[Ev], sizes: bool, enums: bool, void: bool) -> R<N> {
    let mut p = Ps { e: evs, i: 0, sizes, enums, void };
    let n = p.value()?;
    if p.peek().is_some() {
        p.i += 1;
        return p.bad("after the end of the value");
    }
    Ok(n)
}

pub fn parse(evs: &[Ev]) -> R<N> {
    parse_with(evs, true, true, false)
}

/// As `parse`, allowing enums without a variant.
pub fn parse_void(evs: &[Ev]) -> R<N> {
    parse_with(evs, true, true, true)
}

pub fn check(evs: &[Ev]) -> R<()> {
    parse_with(evs, true, true, false).map(|_| ())
}

/// As `check`, for consumers that take enums but leave their variants to be lowered.
pub fn check_loose(evs: &[Ev]) -> R<()> {
    parse_with(evs, true, false, false).map(|_| ())
}

/// Whether the events so far are one whole value (possibly with hints around it).
pub fn complete(evs: &[Ev]) -> bool {
    parse(evs).is_ok()
}
