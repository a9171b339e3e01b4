pub mod common;
pub mod c01;
pub mod c02;
#[cfg(feature = "full")]
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
#[cfg(feature = "full")]
pub mod c07;
#[cfg(feature = "full")]
pub mod c08;
#[cfg(feature = "full")]
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
#[cfg(feature = "full")]
pub mod c15;
#[cfg(feature = "full")]
pub mod c16;
#[cfg(not(feature = "full"))]
pub mod c17;
#[cfg(feature = "full")]
pub mod c18;
#[cfg(feature = "full")]
pub mod c19;

use crate::run::Prop;

const PRODUCER: &str = "value script (producer), recording consumer";

/// What the build without an allocator decides.
#[cfg(not(feature = "full"))]
pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        run: c17::run,
        quick: 10_000_000,
        thorough: 200_000_000,
        level: "exploration",
        rule: "distinct (call sequence or history of buffer operations, scenario, entry point, fault kind and position)",
        real: "sval, sval_ref, sval_dynamic, sval_buffer, sval_json, sval_fmt, sval_nested, sval_flatten, sval_serde, derived and std values, all built without the alloc and std features",
        stub: "value script (producer), recording consumers, serde serializer, fmt::Write",
    }]
}

#[cfg(feature = "full")]
pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01::run,
            quick: 6_000_000,
            thorough: 300_000_000,
            level: "exploration",
            rule: "distinct (call sequence with fragment lending, source layer, sink layer, fault kind and position)",
            real: "sval, sval_dynamic, sval_ref, derived and std values",
            stub: PRODUCER,
        },
        Prop {
            id: "C02",
            run: c02::run,
            quick: 6_000_000,
            thorough: 300_000_000,
            level: "exploration",
            rule: "distinct (lowered call sequence, set of implemented consumer methods, source layer, fault kind and position)",
            real: "sval (default_stream, trait defaults, Computed), sval_dynamic, sval_ref, derived and std values",
            stub: PRODUCER,
        },
        Prop {
            id: "C03",
            run: c03::run,
            quick: 5_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (captured call sequence, capture route, position of the value's failure)",
            real: "sval_buffer (ValueBuf, Value, TextBuf, BinaryBuf), sval, sval_ref, sval_dynamic",
            stub: PRODUCER,
        },
        Prop {
            id: "C04",
            run: c04::run,
            quick: 8_000_000,
            thorough: 400_000_000,
            level: "exploration",
            rule: "distinct (history of buffer operations with their contents, or call sequence of a collected value with the position of its failure)",
            real: "sval_buffer (TextBuf, BinaryBuf), sval (to_text, to_binary), sval_ref",
            stub: "value script and Display script (producers), recording consumer",
        },
        Prop {
            id: "C05",
            run: c05::run,
            quick: 5_000_000,
            thorough: 250_000_000,
            level: "exploration",
            rule: "distinct (delivered call sequence, entry point)",
            real: "sval_json (formatter and every entry point), sval, sval_ref, sval_dynamic, derived and std values",
            stub: "value script (producer); strict JSON reader and reference meaning (oracle)",
        },
        Prop {
            id: "C06",
            run: c06::run,
            quick: 5_000_000,
            thorough: 250_000_000,
            level: "exploration",
            rule: "distinct (call sequence, writer kind, sequence of writer outcomes, producer fault)",
            real: "sval_json (formatter, io::Write and fmt::Write adapters), std BufWriter and LineWriter",
            stub: "value script (producer), faulty io::Write and fmt::Write",
        },
        Prop {
            id: "C07",
            run: c07::run,
            quick: 1_000_000,
            thorough: 50_000_000,
            level: "exploration",
            rule: "distinct (call sequence or text, scenario, source and layers); every run fails at each call in turn",
            real: "sval, sval_dynamic, sval_ref, sval_buffer, sval_fmt, sval_json, sval_nested, sval_serde, sval_flatten, derived and std values",
            stub: "value script (producer), failing recording consumers, serde serializer, fmt::Write, io::Write",
        },
        Prop {
            id: "C08",
            run: c08::run,
            quick: 1_000_000,
            thorough: 50_000_000,
            level: "exploration",
            rule: "distinct (call sequence, consumer entry point, steps); every run fails at each of the value's steps in turn",
            real: "sval, sval_dynamic, sval_ref, sval_buffer, sval_fmt, sval_json, sval_nested, sval_serde, sval_flatten, derived and std values",
            stub: "value script and scripted serde value (failing producers), recording consumer, nested consumer, serde serializer",
        },
        Prop {
            id: "C09",
            run: c09::run,
            quick: 4_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (call sequence with fragment lending, scenario, source and layers, fault kind and position)",
            real: "sval (and its labels), sval_dynamic, sval_ref, sval_buffer, sval_nested, sval_serde, sval_flatten, derived and std values",
            stub: "value script (producer), recording consumers, watched memory (allocator)",
        },
        Prop {
            id: "C10",
            run: c10::run,
            quick: 5_000_000,
            thorough: 250_000_000,
            level: "exploration",
            rule: "distinct (delivered call sequence, entry point or token writer, fault kind and position)",
            real: "sval_fmt (Writer, ToFmt, stream_to_*, TokenWrite), sval, sval_ref, sval_dynamic, derived and std values",
            stub: "value script (producer), failing fmt::Write, recording and failing TokenWrite; reference text (oracle)",
        },
        Prop {
            id: "C11",
            run: c11::run,
            quick: 4_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (call sequence, implemented methods, capture mode, entry point, fault kind and position)",
            real: "sval_nested (flat adapter, enum adapter, defaults), sval_buffer, sval_ref, derived and std values",
            stub: "value script (producer), tree-building recursive consumer",
        },
        Prop {
            id: "C12",
            run: c12::run,
            quick: 4_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (call sequence, entry point, fault kind and position)",
            real: "sval_serde (ToSerialize), sval_nested, sval_buffer, derived and std values",
            stub: "value script (producer), recording serde Serializer",
        },
        Prop {
            id: "C13",
            run: c13::run,
            quick: 4_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (call sequence, route, fault kind and position)",
            real: "sval_serde (ToValue, ToSerialize), sval_nested",
            stub: "scripted serde Serialize (producer), recording consumer, recording serde Serializer",
        },
        Prop {
            id: "C14",
            run: c14::run,
            quick: 5_000_000,
            thorough: 250_000_000,
            level: "exploration",
            rule: "distinct (streamed call sequence, target, consumer route, fault kind and position)",
            real: "sval_flatten (all five targets), sval_derive's #[sval(flatten)], sval, sval_ref, sval_dynamic",
            stub: PRODUCER,
        },
        Prop {
            id: "C15",
            run: c15::run,
            quick: 4_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (call sequence, route, fault kind and position) of each streaming in a history",
            real: "every Value implementation of sval, sval_buffer, sval_fmt, sval_json, sval_ref, sval_serde; derived types with every attribute; sval_flatten",
            stub: "data from the tape, recording consumer; expected events written from the data (oracle)",
        },
        Prop {
            id: "C16",
            run: c16::run,
            quick: 800_000,
            thorough: 40_000_000,
            level: "exploration",
            rule: "distinct (shared values, jobs with their entry points and faults, order of turns or of nested starts)",
            real: "sval, sval_dynamic, sval_ref, sval_buffer, sval_fmt, sval_json, sval_nested, sval_serde, sval_flatten, sval_test, derived and std values, on real threads",
            stub: "thread scheduler, value script (producer), recording consumers, serde serializer, fmt::Write",
        },
        Prop {
            id: "C18",
            run: c18::run,
            quick: 4_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (call sequence, judgement, position of the value's failure)",
            real: "sval_test (TokenBuf, assert_tokens, assert_valid, assert_invalid), sval, sval_dynamic, derived and std values",
            stub: PRODUCER,
        },
        Prop {
            id: "C19",
            run: c19::run,
            quick: 4_000_000,
            thorough: 200_000_000,
            level: "exploration",
            rule: "distinct (call sequence, spacing, route, fault kind and position) of each streaming in a history",
            real: "sval_experiments (JsonSlice and its reader), sval_json, sval, sval_ref, sval_dynamic",
            stub: "documents from the tape, recording consumer; expected events written from the document (oracle)",
        },
    ]
}
