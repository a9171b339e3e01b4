GEN = "Seeded swarm generation of values and delivery schedules; "
NOTE = {
 "C01": GEN + "millions of runs per check over layer stacks, with an error injected at any consumer call or producer step, judged event by event against a reference expansion of the script. Bounded depth/width; not a proof.",
 "C02": GEN + "consumers implement a random subset of the optional methods; judged against an independent reference lowering, with consumer and producer faults at any call.",
 "C03": GEN + "histories of captures, part-way failures, clears, conversions and replays; source memory overwritten under owned captures; replay compared with the reference expansion.",
 "C04": GEN + "histories of pushes, failing Display, clears and clones on text/binary buffers and whole-value extraction, judged against a reference concatenation.",
 "C05": GEN + "documents written through every sval_json entry point, parsed by an independent strict parser and compared with the reference meaning of the value.",
 "C06": GEN + "a simulated disk makes short, interrupted, refused and failing writes at any byte; accepted bytes compared with the fault-free document.",
 "C07": GEN + "each run makes the consumer (sval, nested, serde, fmt::Write or io::Write) fail at every call in turn, over every source and stack of layers; no further call, an error for the caller, and what was accepted is a prefix of the fault-free calls.",
 "C08": GEN + "each run makes the value fail at every one of its own steps in turn, against one of about 120 consumer entry points; the entry point must report it, without panicking.",
 "C09": GEN + "the simulator's allocator watches every byte the value owns: frees are poisoned, never reused, and borrowed fragments are checked for pointing into memory alive for 'sval; sources are overwritten and dropped under whatever buffers and adapters kept, with consumer and producer faults at any call.",
 "C10": GEN + "text and tokens written through every sval_fmt entry point compared with a reference rendering of the value; fmt::Write, TokenWrite and the value fail at any call.",
 "C11": GEN + "a recursive consumer with a random set of methods rebuilds the tree (recursing or capturing flat); compared with the reference tree, with consumer and producer faults at any call.",
 "C12": GEN + "a recording serde Serializer that can fail at any call; the calls and the value they build compared with the reference equivalent (or refusal) of the event stream, with producer faults at any step.",
 "C13": GEN + "scripted Serialize implementations streamed through ToValue and round-tripped through ToSerialize; events and Serializer calls compared with the reference, with faults on either side at any call.",
 "C14": GEN + "parents of all five kinds and derived types with flattened fields; compared event by event, including after a failure at any consumer call or producer step, with a reference splice.",
 "C15": GEN + "data for about 90 built-in and derived types plus generated compositions; each run is a history of streamings by different routes, some failing at any call, with conversions in between; every event compared with what the data calls for.",
 "C16": "Seeded scheduling of 2-4 real threads, one running at a time, with a possible switch at every producer step, consumer call, writer call and allocation; or of re-entrant starts from inside callbacks; or of streams over memory whose contents change. Jobs over shared values, buffers and labels, some failing or panicking part way, each compared with the same job run alone. Switches fall at those points only, not between single instructions.",
 "C17": "The whole simulator is built a second time, with every crate under test free of alloc and std, and the histories of C01, C02, C04, C05, C10-C14 run again with the same failing producers and consumers, plus captures into a one-part buffer. What needs no buffering is judged exactly as with an allocator; anything else must be refused or exactly right.",
 "C18": GEN + "honest, wrong and failing producers judged by assert_tokens, assert_valid and TokenBuf; the verdict compared with the reference: exactly the right token sequences pass, and exactly the well-formed streams are valid.",
 "C19": "a seeded tape decides a JSON document, its spacing, a history of streamings by different routes, the call at which each consumer fails and where the document is cut; events compared with those written from the document, and sval_json's output with the document.",
}
NA = {
 "N01": "Pure function of one scalar: no schedule, fault, time or second party for a simulator to control; deciding it means sweeping or proving over bit patterns, which is not this technique. (C05 and C10 still compare scalars in whole documents.)",
 "N02": "Algebraic laws of pure comparison functions; nothing is scheduled, shared or fails.",
 "N03": "Happens in the compiler, before any execution that could be simulated.",
}
