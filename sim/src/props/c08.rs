//! C08: a value that fails part way is reported as failed by every consumer.
//!
//! One run is one value and one consumer entry point; the value is made to fail at every step of its own (a drawn set
//! of them for long values), before its first event and after its last included.

use super::c01::{self, SINKS, SOURCES};
use super::c02::{self, Masked};
use super::c06::Fmt;
use super::c07::{flat_script, real_script};
use super::common::*;
use super::{c05, c10, c11, c12, c13};
use crate::ctx;
use crate::ev::*;
use crate::gen::{self, Cfg, Gen, Keys};
use crate::nest::{m as nm, NRec};
use crate::run::*;
use crate::script::*;
use crate::ser;
use crate::tape::Tape;
use sval::Value as _;
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_serde::{ToSerialize, ToValue};

/// How an entry point ended.
#[derive(Debug, PartialEq)]
pub enum End {
    Ok(String),
    Err,
    /// The failure shows in the text that came out instead.
    Marks(String),
}

pub fn end<T: std::fmt::Debug, E>(r: Result<T, E>) -> End {
    match r {
        Ok(v) => End::Ok(format!("{v:?}")),
        Err(_) => End::Err,
    }
}

fn opt<T: std::fmt::Debug>(r: Option<T>) -> End {
    end(r.ok_or(()))
}

pub const SCENES: usize = 16;

/// A value that suits the entry points of a scene.
pub fn script(t: &mut Tape, scene: usize) -> Script {
    match scene {
        14 => flat_script(t),
        13 | 15 => real_script(t),
        5 | 6 => gen::script(t, c05::cfg),
        4 | 9 => gen::script(t, c12::cfg),
        11 | 12 => {
            // mostly text or binary alone
            let mut c = Cfg::swarm(t);
            let only = [gen::kind::TEXT, gen::kind::BIN, gen::kind::TEXT | gen::kind::REAL, gen::kind::SCALAR][t.draw(4)];
            if t.draw(4) != 3 {
                c.kinds = only;
                c.labels = 0;
            }
            let depth = if t.draw(3) == 2 { c.depth } else { 0 };
            Gen::new(t, c).sub(depth)
        }
        _ => gen::script(t, |c, t| {
            c.nested_enum = t.draw(3) == 2;
            c.keys = [Keys::Any, Keys::Scalar, Keys::Text][t.draw(3)];
        }),
    }
}

/// A value's way through the code under test: which entry point, with which settings.
#[derive(Debug, Clone)]
pub struct Case {
    pub scene: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
    pub mask: u32,
    pub sv: Option<ser::SV>,
    /// the consumer fails at this call
    pub fail: Option<u64>,
}

impl Case {
    pub fn draw(t: &mut Tape, scene: usize) -> Case {
        let a = t.draw(SOURCES);
        let b = t.draw(SINKS);
        let c = t.draw(12);
        let mask = t.u64() as u32;
        let sv = if scene == 10 {
            let c = Cfg::swarm(t);
            let depth = c.depth;
            let mut g = Gen::new(t, c);
            Some(ser::gen(&mut g, depth))
        } else {
            None
        };
        Case { scene, a, b, c, mask, sv, fail: None }
    }
    /// Go all the way; `seen` is what a streaming consumer saw.
    pub fn go(&self, s: &Box<Script>, seen: &mut Vec<Ev>) -> End {
        let r: &Script = s;
        let Case { scene, a, b, c, mask, .. } = *self;
        let sv = &self.sv;
        let mut rc = Rec::new(self.fail);
        match scene {
            0 | 14 | 15 => {
                let x = c01::sink(b, a, s, &r, &mut rc);
                *seen = rc.evs;
                end(x)
            }
            1 => {
                let mut m = Masked { rec: rc, k: if c < 3 { 0 } else { mask & ((1 << c02::m::COUNT) - 1) } };
                let x = c01::source(a, s, &r, &mut m);
                *seen = m.rec.evs;
                end(x)
            }
            2 | 3 => {
                let n = NRec::new(if c < 3 { nm::ALL } else { mask & nm::ALL }, (mask >> 28) as u64 % 3, mask as u64 & 0xffff, self.fail);
                end(c11::enter(a % c11::ENTRIES, s, n))
            }
            4 => end(c12::enter(a % c12::ENTRIES, s, ser::R::new(self.fail))),
            5 | 6 => end(c05::document(c % c05::ENTRIES, &s).map(|b| String::from_utf8_lossy(&b).into_owned())),
            7 => {
                let mut w = Fmt { got: String::new(), calls: 0, fail_call: self.fail.map(|k| k as usize), failed: false, after: 0, at_fail: 0 };
                let x = c10::write(c % c10::ENTRIES, s, &mut w);
                *seen = vec![Ev::Text(w.got.clone(), P::C)];
                match x {
                    (Err(_), ..) => End::Err,
                    (Ok(()), _, true) => End::Marks(w.got),
                    (Ok(()), _, false) => End::Ok(w.got),
                }
            }
            8 => {
                // collected whole
                match c {
                    0 | 1 => end(ValueBuf::collect(r)),
                    2 | 3 => end(Value::collect(r)),
                    4 => end(ValueBuf::collect_owned(r)),
                    5 => end(Value::collect_owned(r)),
                    6 => end(ValueBuf::collect(r as &dyn sval_dynamic::Value)),
                    7 => {
                        let mut b = ValueBuf::new();
                        end(r.stream(&mut b).map(|_| b))
                    }
                    8 => {
                        let mut b = ValueBuf::new();
                        end(sval::stream_computed(&mut b, r).map(|_| b))
                    }
                    9 => {
                        // after another value, into the same buffer
                        let mut b = ValueBuf::new();
                        let _ = sval::stream(&mut b, &1);
                        b.clear();
                        end(c01::source(a, s, &r, &mut b).map(|_| b.is_complete()))
                    }
                    10 => end(ValueBuf::collect(r).and_then(|b| Value::collect_owned(&b))),
                    _ => end(Value::collect(s)),
                }
            }
            9 => {
                // out to serde and back
                let v = ToValue::new(ToSerialize::new(r));
                let x = crate::erase::erased(&mut rc, |e| v.stream(e));
                *seen = rc.evs;
                end(x)
            }
            10 => {
                let sv = sv.as_ref().unwrap();
                let w = ToValue::new(sv);
                match c {
                    9 => end(sval_json::stream_to_string(&w)),
                    10 => end(ToSerialize::new(&w).serialize_r()),
                    11 => end(Value::collect_owned(w)),
                    _ => {
                        let x = c13::enter(c, sv, &w, &mut rc);
                        *seen = rc.evs;
                        end(x)
                    }
                }
            }
            11 | 12 => match c {
                0 | 1 => end(TextBuf::collect(r)),
                2 => end(BinaryBuf::collect(r)),
                3 => end(TextBuf::collect(s)),
                4 => end(BinaryBuf::collect(r as &dyn sval_dynamic::Value)),
                5 => opt(r.to_text()),
                6 => opt(r.to_binary()),
                7 => match &s.ops[0] {
                    Op::Real(_, v) => opt(v.to_text()),
                    _ => opt(s.to_text()),
                },
                8 => match &s.ops[0] {
                    Op::Real(_, v) => end(TextBuf::collect(&**v)),
                    _ => end(TextBuf::collect(r as &(dyn sval_dynamic::Value + Send))),
                },
                9 => match a {
                    0 => opt(r.to_bool()),
                    1 => opt(r.to_u8()),
                    2 => opt(r.to_u16()),
                    3 => opt(r.to_u32()),
                    4 => opt(r.to_u64()),
                    5 => opt(r.to_u128()),
                    6 => opt(r.to_i8()),
                    7 => opt(r.to_i16()),
                    8 => opt(r.to_i32()),
                    9 => opt(r.to_i64()),
                    10 => opt(r.to_i128()),
                    11 => opt(r.to_f32()),
                    _ => opt(r.to_f64()),
                },
                10 => end(sval_json::stream_to_json_str(r).map(|j| j.to_string())),
                _ => end(TextBuf::collect_display(sval_fmt::ToFmt::new(0)).and_then(|_| TextBuf::collect(r))),
            },
            _ => match &s.ops[0] {
                Op::Real(_, v) => {
                    let x = c01::stream_any(c, &**v, &mut rc);
                    *seen = rc.evs;
                    end(x)
                }
                _ => {
                    let x = c01::stream_any(c, r, &mut rc);
                    *seen = rc.evs;
                    end(x)
                }
            },
        }
    }
}

pub fn run(t: &mut Tape, st: &mut Stats) -> Res {
    let scene = t.draw(SCENES);
    let s = Box::new(script(t, scene));
    let k = Case::draw(t, scene);
    let Case { scene, a, b, c, .. } = k;
    let sv = &k.sv;
    let go = || k.go(&s, &mut vec![]);
    let (clean, _) = ctx::producing(None, &go);
    let (steps, clean2) = {
        let mut n = 0;
        let (e, _) = ctx::producing(None, || {
            let e = go();
            n = ctx::steps();
            e
        });
        (n, e)
    };
    let cx = |v: Violation| v.with("entry point", (scene, a, b, c)).with("script", &s).with("serde value", &sv).with("without a fault", &clean);
    if clean != clean2 {
        return Err(cx(fail("differs", format!("the same value gave something else the second time: {clean2:?}"))));
    }
    st.state(&(shape(&s.events()), scene, a, b, c, steps));
    st.sample(|| format!("entry {scene}/{a}/{b}/{c}, the value failing at each of {steps} steps: {}", show(&s.events())));
    if clean == End::Err {
        st.hit("probe.refused");
    }
    // fewer for the big ones
    #[allow(non_snake_case)]
    let ALL: u64 = 40.min(4 + 400_000 / (steps + ctx::ticks() + 1));
    let ks: Vec<u64> = if steps <= ALL { (0..steps).collect() } else { (0..ALL).map(|_| pos(t, steps)).collect() };
    for k in ks {
        let (e, fired) = ctx::producing(Some(k), &go);
        st.hit("fault.producer_error");
        let cx = |v: Violation| cx(v).with("the value fails at its step", k).with("ended", &e);
        if !fired {
            return Err(cx(fail("value-not-streamed", "the value was not streamed as far as without the fault")));
        }
        match &e {
            End::Err => {}
            End::Ok(_) => return Err(cx(fail("error-swallowed", "the value failed but came out as if it was complete"))),
            End::Marks(m) => {
                if !m.ends_with('>') || matches!(&clean, End::Marks(c) if c == m) {
                    return Err(cx(fail("error-swallowed", "the value failed but nothing shows it")));
                }
            }
        }
    }
    Ok(())
}

trait SerializeR {
    fn serialize_r(&self) -> Result<ser::SV, ser::E>;
}

impl<T: serde::Serialize> SerializeR for T {
    fn serialize_r(&self) -> Result<ser::SV, ser::E> {
        self.serialize(ser::R::new(None))
    }
}
