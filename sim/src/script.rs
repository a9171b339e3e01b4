//! The simulated producer: a value together with the schedule by which it is delivered.

use crate::ctx;
use crate::erase::{erased, E};
use crate::ev::*;
use crate::real::Real;
use sval::Stream;

#[derive(Clone, Debug)]
pub struct Script {
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Call(Ev),
    Sub(How, Box<Script>),
    Real(How, Box<Real>),
    /// A container of `ValueRef`s.
    RefSeq(RefKind, Vec<Script>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RefKind {
    Slice,
    Vec,
    Arr,
    Tup,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Inline,
    Value,
    ValueBox,
    DynValue,
    DynInline,
    DynSend,
    DynSync,
    RefStream,
    RefNested,
    RefValue,
    Computed,
    ComputedBox,
    ComputedDyn,
    ComputedRef,
    ComputedRefInline,
}

pub const HOWS: [How; 15] = [
    How::Inline,
    How::Value,
    How::ValueBox,
    How::DynValue,
    How::DynInline,
    How::DynSend,
    How::DynSync,
    How::RefStream,
    How::RefNested,
    How::RefValue,
    How::Computed,
    How::ComputedBox,
    How::ComputedDyn,
    How::ComputedRef,
    How::ComputedRefInline,
];

impl How {
    pub fn computed(self) -> bool {
        use How::*;
        matches!(self, Computed | ComputedBox | ComputedDyn | ComputedRef | ComputedRefInline)
    }
}

pub trait Poison {
    fn poison(&mut self);
}

impl Poison for Ev {
    fn poison(&mut self) {
        for_labels(self, &mut |l| ctx::poison_str(&mut l.text));
        match self {
            Ev::Text(s, _) => ctx::poison_str(s),
            Ev::Bin(b, _) => ctx::poison_bytes(b),
            _ => {}
        }
    }
}

impl Poison for Script {
    fn poison(&mut self) {
        for op in &mut self.ops {
            match op {
                Op::Call(e) => e.poison(),
                Op::Sub(_, s) => s.poison(),
                Op::Real(_, r) => r.poison(),
                Op::RefSeq(_, v) => v.iter_mut().for_each(|s| s.poison()),
            }
        }
    }
}

/// Hand `v` to `s` by the chosen route, for the routes that don't call the stream's `value` or `value_computed`.
fn inline<'sval, V, S>(how: How, v: &'sval Box<V>, s: &mut S) -> Option<sval::Result>
where
    V: sval::Value + 'static,
    S: Stream<'sval> + ?Sized,
{
    let r: &'sval V = &**v;
    Some(match how {
        How::Inline => r.stream(s),
        How::DynInline => sval::Value::stream(r as &'sval dyn sval_dynamic::Value, s),
        How::RefStream => sval_ref::stream_ref(s, sval_ref::to_ref(r)),
        #[cfg(feature = "full")]
        How::RefNested => sval_ref::stream_ref(s, &Box::new(&sval_ref::to_ref(r))),
        #[cfg(not(feature = "full"))]
        How::RefNested => sval_ref::stream_ref(s, &&sval_ref::to_ref(r)),
        _ => return None,
    })
}

/// Hand `v` to `s` by the chosen route, for all other routes.
fn deliver<'sval, V, S>(how: How, v: &'sval Box<V>, s: &mut S) -> sval::Result
where
    V: sval::Value + Clone + Poison + Send + Sync + 'static,
    S: Stream<'sval> + ?Sized,
{
    let r: &'sval V = &**v;
    match how {
        How::Value => s.value(r),
        #[cfg(feature = "full")]
        How::ValueBox => s.value(v),
        #[cfg(not(feature = "full"))]
        How::ValueBox => s.value(r),
        How::DynValue => s.value(r as &'sval dyn sval_dynamic::Value),
        How::DynSend => s.value(r as &'sval (dyn sval_dynamic::Value + Send)),
        How::DynSync => s.value(r as &'sval (dyn sval_dynamic::Value + Send + Sync)),
        How::RefValue => s.value(sval_ref::Ref::new_borrowed(r)),
        How::Computed | How::ComputedBox | How::ComputedDyn | How::ComputedRef | How::ComputedRefInline => {
            let mut c = v.clone();
            let res = match how {
                How::Computed => s.value_computed(&*c),
                #[cfg(feature = "full")]
                How::ComputedBox => s.value_computed(&c),
                How::ComputedDyn => s.value_computed(&*c as &dyn sval_dynamic::Value),
                How::ComputedRef => s.value_computed(&&&*c),
                _ => s.value_computed(&sval_ref::to_ref(&*c)),
            };
            c.poison();
            ctx::bury(c);
            res
        }
        _ => unreachable!(),
    }
}

/// A nested value on its way to a stream's `value` or `value_computed`.
#[derive(Clone, Copy)]
pub enum Kid<'sval> {
    Script(&'sval Box<Script>),
    Real(&'sval Box<Real>),
}

impl<'sval> Kid<'sval> {
    pub fn deliver<S: Stream<'sval> + ?Sized>(self, how: How, s: &mut S) -> sval::Result {
        match self {
            Kid::Script(v) => deliver(how, v, s),
            Kid::Real(v) => deliver(how, v, s),
        }
    }
}

impl sval::Value for Script {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        erased(s, |s| self.run(s))
    }
}

impl Script {
    fn run<'sval>(&'sval self, s: &mut E<'_, 'sval>) -> sval::Result {
        for op in &self.ops {
            ctx::pstep()?;
            match op {
                Op::Call(e) => fire(e, s)?,
                Op::Sub(how, v) => match inline(*how, v, s) {
                    Some(r) => r?,
                    None => s.deliver(*how, Kid::Script(v))?,
                },
                Op::Real(how, v) => match inline(*how, v, s) {
                    Some(r) => r?,
                    None => s.deliver(*how, Kid::Real(v))?,
                },
                Op::RefSeq(kind, v) => {
                    let refs: Vec<sval_ref::Ref<&'sval Script>> = v.iter().map(sval_ref::to_ref).collect();
                    match kind {
                        RefKind::Slice => sval_ref::stream_ref(s, &refs[..])?,
                        #[cfg(feature = "full")]
                        RefKind::Vec => sval_ref::stream_ref(s, refs)?,
                        #[cfg(not(feature = "full"))]
                        RefKind::Vec => sval_ref::stream_ref(s, &refs[..])?,
                        RefKind::Arr => match refs.len() {
                            0 => sval_ref::stream_ref(s, [] as [sval_ref::Ref<&'sval Script>; 0])?,
                            1 => sval_ref::stream_ref(s, [refs[0]])?,
                            2 => sval_ref::stream_ref(s, [refs[0], refs[1]])?,
                            _ => sval_ref::stream_ref(s, [refs[0], refs[1], refs[2]])?,
                        },
                        RefKind::Tup => crate::real::stream_ref_tuple(s, &refs)?,
                    }
                }
            }
        }
        ctx::pstep()
    }
}

/// Reference expansion of a script into the calls the consumer must see.
pub struct X {
    pub out: Vec<Ev>,
    pub computed: bool,
    pub step: u64,
    pub fail_at: u64,
}

pub struct Stop;

impl X {
    pub fn step(&mut self) -> Result<(), Stop> {
        let s = self.step;
        self.step += 1;
        if s == self.fail_at {
            Err(Stop)
        } else {
            Ok(())
        }
    }
    pub fn push(&mut self, e: Ev) {
        let e = with_addr(&e);
        self.push_raw(e)
    }
    pub fn push_raw(&mut self, e: Ev) {
        let e = match e {
            Ev::Text(s, P::B(_)) if self.computed => Ev::Text(s, P::C),
            Ev::Bin(s, P::B(_)) if self.computed => Ev::Bin(s, P::C),
            e => e,
        };
        self.out.push(e);
    }
    pub fn under<R>(&mut self, how: How, f: impl FnOnce(&mut X) -> R) -> R {
        let saved = self.computed;
        self.computed |= how.computed();
        let r = f(self);
        self.computed = saved;
        r
    }
    pub fn script(&mut self, s: &Script) -> Result<(), Stop> {
        for op in &s.ops {
            self.step()?;
            match op {
                Op::Call(e) => {
                    // borrowed fragments keep the address of the script's own memory
                    let e2 = match e {
                        Ev::Text(t, P::B(_)) => Ev::Text(t.clone(), P::B(t.as_ptr() as usize)),
                        Ev::Bin(t, P::B(_)) => Ev::Bin(t.clone(), P::B(t.as_ptr() as usize)),
                        e => e.clone(),
                    };
                    self.push_raw(e2)
                }
                Op::Sub(how, v) => self.under(*how, |x| x.script(v))?,
                Op::Real(how, v) => self.under(*how, |x| v.expand(x))?,
                Op::RefSeq(kind, v) => match kind {
                    RefKind::Slice | RefKind::Vec => self.seq(v.iter())?,
                    RefKind::Arr => {
                        self.push(Ev::TaggedBegin(Meta::tag(sval::tags::CONSTANT_SIZE)));
                        self.seq(v.iter().take(3))?;
                        self.push(Ev::TaggedEnd(Meta::tag(sval::tags::CONSTANT_SIZE)));
                    }
                    RefKind::Tup => self.tuple(v.iter())?,
                },
            }
        }
        self.step()
    }
    pub fn seq<'a>(&mut self, v: impl ExactSizeIterator<Item = &'a Script>) -> Result<(), Stop> {
        self.push(Ev::SeqBegin(Some(v.len())));
        for s in v {
            self.push(Ev::SeqVB);
            self.script(s)?;
            self.push(Ev::SeqVE);
        }
        self.push(Ev::SeqEnd);
        Ok(())
    }
    pub fn tuple<'a>(&mut self, v: impl ExactSizeIterator<Item = &'a Script>) -> Result<(), Stop> {
        self.push(Ev::TupBegin(Meta::default(), Some(v.len())));
        for (i, s) in v.enumerate() {
            self.push(Ev::TupVB(None, I::offset(i)));
            self.script(s)?;
            self.push(Ev::TupVE(None, I::offset(i)));
        }
        self.push(Ev::TupEnd(Meta::default()));
        Ok(())
    }
}

impl Script {
    pub fn call(evs: Vec<Ev>) -> Script {
        Script { ops: evs.into_iter().map(Op::Call).collect() }
    }
    /// Full expected event list.
    pub fn events(&self) -> Vec<Ev> {
        self.events_until(None).0
    }
    /// Expected events if the producer fails at `fail_at`; whether it gets to the end; steps taken.
    pub fn events_until(&self, fail_at: Option<u64>) -> (Vec<Ev>, bool, u64) {
        let mut x = X { out: vec![], computed: false, step: 0, fail_at: fail_at.unwrap_or(u64::MAX) };
        let ok = x.script(self).is_ok();
        (x.out, ok, x.step)
    }
    pub fn steps(&self) -> u64 {
        self.events_until(None).2
    }
}
