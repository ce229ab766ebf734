"""D08..D11: the external-library traits."""
import shutil
from vk import build, rust, report
from . import enums, dprops

X = {}
def reg(fx, trait, mode, ops, ends=(), asserts=None):
    X.setdefault(fx, []).append(trait)
    m = {"http_body1": "x_body"}.get(fx, "x_" + fx)
    dprops.T[trait] = (mode, [m + "::" + o for o in ops], [m + "::" + e for e in ends])

reg("futures03", "futures03::Stream", "pin", ["stream_op"])
reg("futures03", "futures03::Sink", "pin", ["sink_op"])
reg("futures03", "futures03::AsyncRead", "pin", ["ard_op"])
reg("futures03", "futures03::AsyncWrite", "pin", ["awr_op"])
reg("futures03", "futures03::AsyncSeek", "pin", ["ask_op"])
reg("futures03", "futures03::AsyncBufRead", "pin", ["abr_op"])
reg("futures01", "futures01::Future", "mut", ["fut1_op"], ["fut1_end"])
reg("futures01", "futures01::Stream", "mut", ["stream1_op"], ["stream1_end"])
reg("futures01", "futures01::Sink", "mut", ["sink1_op"])
for v in ("1", "03", "02"):
    f = "tokio" + v
    reg(f, f + "::AsyncRead", "pin", ["ard_op"])
    reg(f, f + "::AsyncWrite", "pin", ["awr_op"])
    reg(f, f + "::AsyncSeek", "pin", ["ask_op"])
    reg(f, f + "::AsyncBufRead", "pin", ["abr_op"])
reg("tokio01", "tokio01::AsyncRead", "mut", ["ard_op"])
reg("tokio01", "tokio01::AsyncWrite", "mut", ["awr_op"])
reg("rayon", "rayon::ParallelIterator", "mut", ["par_op"], ["par_end", "par_end"])
reg("rayon", "rayon::IndexedParallelIterator", "mut", ["ipar_op"], ["ipar_end"])
reg("rayon", "rayon::ParallelExtend", "mut", ["pext_op"])
reg("serde", "serde::Serialize", "ref", ["ser_op"])
reg("http_body1", "http_body1::Body", "pin", ["body_op"])

# fx -> (renamed externs, cargo ext keys)
EXTERNS = {
    "futures03": [("futures", "futures03")], "futures01": [("futures", "futures01")], "tokio1": [("tokio", "tokio1")],
    "tokio03": [("tokio", "tokio03")], "tokio02": [("tokio", "tokio02")], "tokio01": [("tokio", "tokio01")],
    "rayon": [("rayon", "rayon")], "serde": [("serde", "serde")], "http_body1": [("http_body", "http_body1")],
}
CUR = [("io::Cursor<Vec<u8>>", "io::Cursor::new(b\"hello\\nworld no\\nlines\".to_vec())")]
SL = [("&'static [u8]", "&b\"some\\nbytes \\xff n\"[..]")]
VW = [("Vec<u8>", "Vec::<u8>::new()")]
SER = [("u64", "d.seed % 1000"), ("String", "\"héllo\".to_string()"), ("Vec<Option<u8>>", "vec![Some(1u8), None]"), ("()", "()"),
       ("BTreeMap<u8, String>", "BTreeMap::from([(1u8, \"x\".to_string())])"), ("(bool, char)", "(true, 'q')"), ("[i16; 3]", "[1i16, -2, 3]"),
       ("&'static str", "\"st\""), ("f64", "1.5f64"), ("std::time::Duration", "std::time::Duration::from_millis(d.seed % 5000)"),
       ("Result<u8, String>", "Ok::<u8, String>(4)"), ("std::ops::Range<u64>", "1..d.seed % 9")]
RAY = [("rayon::vec::IntoIter<u64>", "{ use rayon::iter::*; vec![3u64, 1, 4, 1, 5, d.seed % 7, 9, 2, 6].into_par_iter() }"),
       ("rayon::range::Iter<u32>", "{ use rayon::iter::*; (0..(d.seed % 300) as u32).into_par_iter() }"),
       ("rayon::iter::Empty<u64>", "rayon::iter::empty::<u64>()"), ("rayon::iter::Once<u64>", "rayon::iter::once(d.seed % 50)")]
RAYX = [("rayon::range::Iter<u32>", RAY[1][1]), ("rayon::vec::IntoIter<u32>", "{ use rayon::iter::*; vec![3u32, 1, 4, 1].into_par_iter() }"), ("rayon::iter::Empty<u32>", "rayon::iter::empty::<u32>()")]
RAY = [RAY[0]] + RAY[2:]
STREAMS = [("futures::stream::Iter<std::vec::IntoIter<u64>>", "futures::stream::iter(vec![1u64, 2, d.seed % 9])"),
           ("futures::stream::Empty<u64>", "futures::stream::empty::<u64>()"),
           ("futures::stream::Pending<u64>", "futures::stream::pending::<u64>()"),
           ("std::pin::Pin<Box<dyn futures::stream::Stream<Item = u64>>>", "Box::pin(futures::stream::iter(3..9u64)) as std::pin::Pin<Box<dyn futures::stream::Stream<Item = u64>>>")]
STD = {
    "futures03": [({"futures03::Stream"}, STREAMS, True), ({"futures03::AsyncRead", "futures03::AsyncBufRead"}, [("futures::io::Empty", "futures::io::empty()"), ("futures::io::Cursor<Vec<u8>>", "futures::io::Cursor::new(b\"abc\\ndef\".to_vec())"), SL[0]], True),
                  ({"futures03::AsyncWrite"}, VW + [("futures::io::Cursor<Vec<u8>>", "futures::io::Cursor::new(vec![0u8; 3])"), ("futures::io::Sink", "futures::io::sink()")], True)],
    "tokio1": [({"tokio1::AsyncRead", "tokio1::AsyncBufRead"}, CUR + SL, True), ({"tokio1::AsyncWrite"}, CUR + VW, True), ({"tokio1::AsyncSeek"}, CUR, True)],
    "tokio03": [({"tokio03::AsyncRead", "tokio03::AsyncBufRead"}, CUR + SL, True), ({"tokio03::AsyncWrite"}, CUR + VW, True), ({"tokio03::AsyncSeek"}, CUR, True)],
    "tokio02": [({"tokio02::AsyncRead", "tokio02::AsyncBufRead"}, CUR + SL, True), ({"tokio02::AsyncWrite"}, CUR + VW, True), ({"tokio02::AsyncSeek"}, CUR, True)],
    "rayon": [({"rayon::ParallelIterator", "rayon::IndexedParallelIterator"}, RAY, True), ({"rayon::ParallelIterator", "rayon::IndexedParallelIterator"}, RAY, False), ({"rayon::ParallelIterator", "rayon::IndexedParallelIterator"}, RAYX, False)],
    "serde": [({"serde::Serialize"}, SER, True)],
}
PROPS = {"D08": ["futures03", "futures01"], "D09": ["tokio1", "tokio03", "tokio02", "tokio01"], "D10": ["rayon"], "D11": ["serde", "http_body1"]}
BUDGET = {"futures03": (300, 4000), "futures01": (150, 2000), "tokio1": (160, 2200), "tokio03": (160, 2200), "tokio02": (160, 2200),
          "tokio01": (120, 1600), "rayon": (150, 2000), "serde": (250, 3000), "http_body1": (160, 2200)}


def check(rep):
    rep.rule.append("Generated enums (shape, trait list, field types) whose every variant is driven with random operation sequences, pinned where the trait pins; "
                    "a case is non-trivial when it compiled and at least 20 events were observed on the held values.")
    for fx in PROPS[rep.prop]:
        if rep.replay and not rep.replay.get("generator", "").startswith(fx):
            continue
        m, d, flags = dprops.setup(rep, fx=fx, ext=[k for _, k in EXTERNS[fx]], extern=EXTERNS[fx])
        batch = rust.Batch(d, flags, dprops.PRELUDE)
        rounds = (16 if fx == "rayon" else 24) * (1 if rep.tier == "quick" else 4)
        spec = dict(traits=X[fx], std=STD.get(fx, []), pool=["Iterator", "Read", "Write", "Debug", "Future", "fmt::Write", "Deref", "Display", "BufRead", "Fn", "ExactSizeIterator"])
        try:
            report.differential(rep, batch, dprops.make(rep.prop, spec, rounds), dprops.n_cases(rep, *BUDGET[fx]), rep.seed, gen_name=fx,
                                nontrivial=lambda c, r: r.stats.get("n_events", 0) >= 20)
        finally:
            shutil.rmtree(d, ignore_errors=True)


CHECKS = {p: check for p in PROPS}
