mod alloc;
mod bits;
mod bitstream;
mod cursor;
mod dl;
mod logging;
mod mapper;
mod model;
mod runner;
mod stream;
mod support;
mod tables;
mod types;

use runner::Check;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const CURSOR_RULE: &str = "State: the real cursor's complete internal state plus the model position. Transition: one operation executed on the real cursor and compared with the model. Trace: one exploration of all reachable states of a buffer, or one directly enumerated history.";

const STREAM_RULE: &str = "State: what is in scope where (open blocks with their abbreviations, registered abbreviations). Transition: one token, corruption or record executed on the real parser. Trace: one stream whose entries and end were compared with the reference.";

const DOC_RULE: &str = "State: a distinct document (blocks and records) or an abstract state of one. Transition: a document encoded, mapped by the real mapper and compared with the reference. Trace: the same, once per encoding.";

const SUPPORT_RULE: &str = "State: a distinct value (alignment, type, list of specifications, code) of the model. Transition: an operation executed on the real code and compared with the model. Trace: a value, history or batch of values that was compared completely.";

const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        run: cursor::c01,
        rule: CURSOR_RULE,
        assumptions: &["buffers beyond the explored lengths behave like shorter ones of the same length modulo the word size"],
    },
    Check { id: "C02", run: cursor::c02, rule: CURSOR_RULE, assumptions: &["as C01; the position after a failed read or bit seek is not specified"] },
    Check { id: "C03", run: cursor::c03, rule: CURSOR_RULE, assumptions: &["zero chunks beyond 64 bits of payload are not specified"] },
    Check { id: "C04", run: cursor::c04, rule: CURSOR_RULE, assumptions: &["as C01"] },
    Check { id: "C05", run: cursor::c05, rule: CURSOR_RULE, assumptions: &["as C01"] },
    Check { id: "B01", run: bitstream::b01, rule: STREAM_RULE, assumptions: &[] },
    Check { id: "B02", run: bitstream::b02, rule: STREAM_RULE, assumptions: &["abbreviated records, unknown records and blocks inside BLOCKINFO are not specified"] },
    Check {
        id: "B03",
        run: bitstream::b03,
        rule: STREAM_RULE,
        assumptions: &["Fixed(0), VBR(0), VBR(1) and widths over 32 are not specified, and neither are arrays or blobs that carry the record code"],
    },
    Check {
        id: "B04",
        run: bitstream::b04,
        rule: STREAM_RULE,
        assumptions: &["parsers in different threads don't share anything that parsers in one thread don't (the code has no unsafe parts)"],
    },
    Check { id: "B05", run: bitstream::b05, rule: STREAM_RULE, assumptions: &["as B02 and B03"] },
    Check { id: "B06", run: bitstream::b06, rule: STREAM_RULE, assumptions: &["memory limit: 4 MiB plus 512 bytes per input byte; time limit: 40 s per case"] },
    Check { id: "B07", run: bitstream::b07, rule: STREAM_RULE, assumptions: &["offsets that are not multiples of four or lie inside the wrapper header are not specified"] },
    Check { id: "B08", run: bitstream::b08, rule: STREAM_RULE, assumptions: &[] },
    Check { id: "M01", run: mapper::m01, rule: DOC_RULE, assumptions: &["tables between an identification and its module are not specified"] },
    Check { id: "M02", run: mapper::m02, rule: DOC_RULE, assumptions: &["repeated records, and empty texts that are not required, are not specified"] },
    Check { id: "M03", run: mapper::m03, rule: DOC_RULE, assumptions: &[] },
    Check {
        id: "M04",
        run: mapper::m04,
        rule: DOC_RULE,
        assumptions: &["repeated or unused names, vectors of zero or over 2^32-1 elements, and types over 64 levels deep are not specified"],
    },
    Check {
        id: "M05",
        run: mapper::m05,
        rule: DOC_RULE,
        assumptions: &["type attributes, empty texts, repeated group IDs, IDs and parameters over 32 bits and alignments over 2^32 are not specified"],
    },
    Check { id: "M06", run: mapper::m06, rule: DOC_RULE, assumptions: &["observed through the hook"] },
    Check { id: "M07", run: mapper::m07, rule: DOC_RULE, assumptions: &["observed through the hook"] },
    Check { id: "M08", run: mapper::m08, rule: DOC_RULE, assumptions: &["observed through the hook"] },
    Check {
        id: "M09",
        run: mapper::m09,
        rule: DOC_RULE,
        assumptions: &[
            "alignments of zero where LLVM's documentation does not define them, superfluous components, odd pointer sizes, the GOFF mangling and repeated lists are not specified",
        ],
    },
    Check { id: "M10", run: mapper::m10, rule: DOC_RULE, assumptions: &["empty texts are not specified"] },
    Check { id: "M11", run: mapper::m11, rule: DOC_RULE, assumptions: &["memory limit: 4 MiB plus 512 bytes per input byte; time limit: 40 s per step"] },
    Check { id: "M12", run: mapper::m12, rule: DOC_RULE, assumptions: &[] },
    Check { id: "M13", run: mapper::m13, rule: DOC_RULE, assumptions: &["what a BLOCKINFO block of one module registers for the blocks of the next one is decided by B02"] },
    Check { id: "M14", run: mapper::m14, rule: DOC_RULE, assumptions: &["function blocks inside of other blocks than modules are not specified"] },
    Check { id: "M15", run: mapper::m15, rule: DOC_RULE, assumptions: &["parts of the same kind keep their order"] },
    Check { id: "S01", run: support::s01, rule: SUPPORT_RULE, assumptions: &["the bit alignment of shifts over 60 doesn't fit 64 bits and is not specified"] },
    Check { id: "S02", run: support::s02, rule: SUPPORT_RULE, assumptions: &["vectors of zero elements are not specified"] },
    Check { id: "S03", run: support::s03, rule: SUPPORT_RULE, assumptions: &["the lists are observed through their debug output"] },
    Check { id: "S04", run: support::s04, rule: SUPPORT_RULE, assumptions: &[] },
    Check { id: "S05", run: support::s05, rule: SUPPORT_RULE, assumptions: &[] },
    Check {
        id: "S06",
        run: support::s06,
        rule: SUPPORT_RULE,
        assumptions: &["alignments of zero where LLVM's documentation does not define them, superfluous components and odd pointer sizes are not specified"],
    },
    Check { id: "S07", run: support::s07, rule: SUPPORT_RULE, assumptions: &[] },
];

/// `mc dump FILE`: what the reference parser sees in a file, and what the mapper makes of it (used by
/// tools/validate.py to compare the reference with LLVM's own tools).
fn dump(path: &str) {
    let b = std::fs::read(path).expect("readable file");
    let (entries, term) = stream::ref_parse(&b);
    for e in &entries {
        println!("{e:?}");
    }
    println!("{term:?}");
    println!(
        "{}",
        match stream::differential(&b) {
            Ok(()) => "parsers agree".to_string(),
            Err(e) => format!("PARSERS DISAGREE: {e}"),
        }
    );
    match model::observe(&b) {
        Ok(m) => println!("{m:#?}"),
        Err(e) => println!("rejected: {e}"),
    }
}

fn main() {
    if let Some("dump") = std::env::args().nth(1).as_deref() {
        return dump(&std::env::args().nth(2).expect("file"));
    }
    std::process::exit(runner::main(CHECKS));
}
