//! Op-scripts (see driver/src/vm.rs): generation, and the properties decided by running them: C22, C27.
use crate::bridge;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use driver::op;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use shogi_core::PartialPosition;
use std::ffi::CString;
use std::sync::OnceLock;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum VOp {
    /// As it is; never one that changes a position.
    Any { code: u8, args: [u8; 6] },
    Load { reg: u8, base: u8 },
    Start { reg: u8 },
    Copy { reg: u8, from: u8 },
    /// A move (or, in Rust, an edit), resolved against the model.
    Play { hist: bool, reg: u8, full: bool, op: Op },
    New { reg: u8 },
    Arb { reg: u8, from: u8 },
    Clone { reg: u8, from: u8 },
    Inner { reg: u8, to: u8 },
    Initial { reg: u8, to: u8 },
    Legal { reg: u8, op: Op, status: u8, verdict: u8 },
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Script {
    pub bases: Vec<Base>,
    pub ops: Vec<VOp>,
}

fn vm_piece(p: u8) -> u8 {
    kind_of(p) - 1 + 14 * color_of(p) as u8
}
fn vm_move(m: MMove) -> [u8; 3] {
    match m {
        MMove::Normal { from, to, promote } => [from, to, promote as u8],
        MMove::Drop { piece, to } => [vm_piece(piece), to, 2],
    }
}

pub struct Compiled {
    pub bytes: Vec<u8>,
    pub init: Vec<PartialPosition>,
    /// The model accepted this many moves.
    pub moves: u32,
    pub notes: Vec<&'static str>,
}

/// In C, positions are loaded from `init` and there are no edits.
pub fn compile(s: &Script, c: bool) -> Compiled {
    let mut o: Vec<u8> = Vec::new();
    let mut moves = 0;
    let mut put = |code: u8, args: &[u8]| {
        let mut i = [0u8; 8];
        i[0] = code;
        i[1..1 + args.len()].copy_from_slice(args);
        o.extend_from_slice(&i);
    };
    let bases: Vec<MPos> = s.bases.iter().map(|b| b.build()).collect();
    let mut pp: Vec<MPos> = vec![MPos::start(); driver::N_PP];
    let mut pos: Vec<(MPos, MPos)> = vec![(MPos::start(), MPos::start()); driver::N_POS];
    for v in &s.ops {
        match *v {
            VOp::Any { code, args } => put(code, &args),
            VOp::Load { reg, base } => {
                let r = reg as usize % driver::N_PP;
                if bases.is_empty() {
                    continue;
                }
                let b = base as usize % bases.len();
                if c {
                    put(op::PP_INIT, &[reg, b as u8]);
                } else {
                    put(op::PP_EMPTY, &[reg]);
                    for sq in 0..81u8 {
                        let p = bases[b].board[sq as usize];
                        if p != NONE {
                            put(op::PP_SET, &[reg, sq, vm_piece(p)]);
                        }
                    }
                    for col in 0..2u8 {
                        for k in 1..=7u8 {
                            let n = bases[b].hands[col as usize][k as usize];
                            if n > 0 {
                                put(op::PP_HAND, &[reg, col, k - 1, n - 1, 0]);
                            }
                        }
                    }
                    put(op::PP_SIDE, &[reg, bases[b].side as u8]);
                    put(op::PP_PLY, &[reg, bases[b].ply as u8, (bases[b].ply >> 8) as u8]);
                }
                pp[r] = bases[b].clone();
            }
            VOp::Start { reg } => {
                put(op::PP_START, &[reg]);
                pp[reg as usize % driver::N_PP] = MPos::start();
            }
            VOp::Copy { reg, from } => {
                put(op::PP_COPY, &[reg, from]);
                pp[reg as usize % driver::N_PP] = pp[from as usize % driver::N_PP].clone();
            }
            VOp::Play { hist, reg, full, op: ref g } => {
                let m = if hist { &mut pos[reg as usize % driver::N_POS].1 } else { &mut pp[reg as usize % driver::N_PP] };
                let a = resolve(g, m);
                match a {
                    Act::Nop => {}
                    Act::Mv(x) => {
                        let [p, q, f] = vm_move(x);
                        let code = match (hist, full && !c) {
                            (false, false) => op::PP_MOVE,
                            (false, true) => op::PP_MOVE_FULL,
                            (true, false) => op::POS_MOVE,
                            (true, true) => op::POS_MOVE_FULL,
                        };
                        put(code, &[reg, p, q, f]);
                        if m.apply(x).is_ok() {
                            moves += 1;
                        }
                    }
                    _ if c => {}
                    Act::Set(sq, p) => {
                        put(if hist { op::POS_SET } else { op::PP_SET }, &[reg, sq, if p == NONE { 28 } else { vm_piece(p) }]);
                        act_on_model(m, a);
                    }
                    Act::Hand(col, k, n) => {
                        let old = m.hands[col][k as usize];
                        if old != n {
                            put(if hist { op::POS_HAND } else { op::PP_HAND }, &[reg, col as u8, k - 1, old.abs_diff(n) - 1, (old > n) as u8]);
                        }
                        act_on_model(m, a);
                    }
                    Act::Side(x) if !hist => {
                        put(op::PP_SIDE, &[reg, x as u8]);
                        act_on_model(m, a);
                    }
                    Act::Ply(n) if !hist => {
                        put(op::PP_PLY, &[reg, n as u8, (n >> 8) as u8]);
                        act_on_model(m, a);
                    }
                    _ => {}
                }
            }
            VOp::New { reg } => {
                put(op::POS_NEW, &[reg]);
                pos[reg as usize % driver::N_POS] = (MPos::start(), MPos::start());
            }
            VOp::Arb { reg, from } => {
                if !c {
                    put(op::POS_ARB, &[reg, from]);
                    let m = pp[from as usize % driver::N_PP].clone();
                    pos[reg as usize % driver::N_POS] = (m.clone(), m);
                }
            }
            VOp::Clone { reg, from } => {
                if !c {
                    put(op::POS_CLONE, &[reg, from]);
                    pos[reg as usize % driver::N_POS] = pos[from as usize % driver::N_POS].clone();
                }
            }
            VOp::Inner { reg, to } => {
                put(op::POS_INNER, &[reg, to]);
                pp[to as usize % driver::N_PP] = pos[reg as usize % driver::N_POS].1.clone();
            }
            VOp::Initial { reg, to } => {
                put(op::POS_INITIAL, &[reg, to]);
                pp[to as usize % driver::N_PP] = pos[reg as usize % driver::N_POS].0.clone();
            }
            VOp::Legal { reg, op: ref g, status, verdict } => {
                let m = &mut pos[reg as usize % driver::N_POS].1;
                if let (Act::Mv(x), false) = (resolve(g, m), c) {
                    let [p, q, f] = vm_move(x);
                    put(op::LEGAL, &[reg, p, q, f, status, verdict]);
                    if status % 5 == 3 && matches!(verdict % 9, 0 | 8) && m.apply(x).is_ok() {
                        moves += 1;
                    }
                }
            }
        }
    }
    let init = s.bases.iter().zip(&bases).map(|(b, m)| bridge::build_base(b, m)).collect();
    Compiled { bytes: o, init, moves, notes: vec![] }
}

const C_ANY: [u8; 27] = [
    op::SQ_INFO,
    op::SQ_NEW,
    op::SQ_FROM_U8,
    op::SQ_SHIFT,
    op::PK_INFO,
    op::PK_FROM_U8,
    op::PIECE_INFO,
    op::PIECE_NEW,
    op::COLOR_INFO,
    op::ENUMS,
    op::CM_NORMAL,
    op::CM_DROP,
    op::BB_CLEAR,
    op::BB_ADD,
    op::BB_BIN,
    op::BB_NOT,
    op::BB_FLIP,
    op::BB_POP,
    op::BB_POPALL,
    op::BB_DUMP,
    op::BB_LOAD,
    op::HAND_NEW,
    op::HAND_ADD,
    op::HAND_REMOVE,
    op::HAND_DUMP,
    op::HAND_LOAD,
    op::PP_FIELDS,
];
const C_OBS: [u8; 4] = [op::PP_OBS, op::PP_SFEN, op::POS_OBS, op::POS_SFEN];
const RUST_ANY: [u8; 36] = [
    op::PP_LAST,
    op::PP_KING,
    op::PP_HANDQ,
    op::PP_SINK,
    op::PP_CMP,
    op::PP_DEBUG,
    op::POS_MOVES,
    op::POS_CMP,
    op::POS_TEXT,
    op::POS_LAST,
    op::USI_SQ,
    op::USI_PIECE,
    op::USI_MOVE,
    op::USI_HANDS,
    op::USI_COLOR,
    op::DEBUG,
    op::CMP_SCALAR,
    op::CMP_MOVE,
    op::MV_INFO,
    op::SQ_ALL,
    op::PIECE_ALL,
    op::INDEX,
    op::OPTIONS,
    op::BB_RAW,
    op::BB_SHIFT,
    op::BB_FILE,
    op::BB_ITER,
    op::BB_SWAPPED,
    op::BB_OPS,
    op::BB_CMP,
    op::HAND_FUNC,
    op::HAND_CMP,
    op::PGAME,
    op::GAME,
    op::EXPERIMENTAL,
    op::BB_SHIFT,
];

fn args() -> impl Strategy<Value = [u8; 6]> {
    let byte = prop_oneof![4 => any::<u8>(), 4 => 0u8..12, 1 => prop::sample::select(vec![0u8, 1, 9, 80, 81, 82, 127, 128, 200, 246, 247, 254, 255])];
    prop::array::uniform6(byte)
}
pub fn vop(c: bool, news: bool) -> impl Strategy<Value = VOp> {
    let mut v: Vec<(u32, BoxedStrategy<VOp>)> = Vec::new();
    let codes_ = |codes: &[u8]| (prop::sample::select(codes.to_vec()), args()).prop_map(|(code, args)| VOp::Any { code, args }).boxed();
    v.push((6, codes_(&C_ANY)));
    v.push((5, codes_(&C_OBS)));
    // sets are more interesting when they are worked with
    v.push((3, codes_(&[op::BB_ADD, op::BB_BIN, op::BB_NOT, op::BB_FLIP, op::BB_POP, op::BB_DUMP, op::BB_LOAD, op::BB_LOAD])));
    if !c {
        v.push((9, codes_(&RUST_ANY)));
        v.push((1, (any::<u8>(), any::<u8>()).prop_map(|(reg, from)| VOp::Clone { reg, from }).boxed()));
        v.push((2, (any::<u8>(), any::<u8>()).prop_map(|(reg, from)| VOp::Arb { reg, from }).boxed()));
        v.push((2, (any::<u8>(), op_(MOVES), any::<u8>(), any::<u8>()).prop_map(|(reg, op, s, v)| VOp::Legal { reg, op, status: if s % 2 == 0 { 3 } else { s }, verdict: if v % 2 == 0 { 0 } else { v } }).boxed()));
    }
    v.push((2, (any::<u8>(), any::<u8>()).prop_map(|(reg, base)| VOp::Load { reg, base }).boxed()));
    v.push((1, any::<u8>().prop_map(|reg| VOp::Start { reg }).boxed()));
    v.push((1, (any::<u8>(), any::<u8>()).prop_map(|(reg, from)| VOp::Copy { reg, from }).boxed()));
    v.push((14, (any::<bool>(), any::<u8>(), any::<bool>(), op_(if c { MOVES } else { MIXED })).prop_map(|(hist, reg, full, op)| VOp::Play { hist, reg, full, op }).boxed()));
    if news {
        v.push((1, any::<u8>().prop_map(|reg| VOp::New { reg }).boxed()));
    }
    v.push((1, (any::<u8>(), any::<u8>()).prop_map(|(reg, to)| VOp::Inner { reg, to }).boxed()));
    v.push((1, (any::<u8>(), any::<u8>()).prop_map(|(reg, to)| VOp::Initial { reg, to }).boxed()));
    Union::new_weighted(v)
}
fn op_(w: Weights) -> impl Strategy<Value = Op> {
    crate::gen::op(w)
}
/// Every script ends with a look at everything.
pub fn script(c: bool, len: std::ops::Range<usize>) -> impl Strategy<Value = Script> {
    script_(c, len, 3, true)
}
pub fn script_(c: bool, len: std::ops::Range<usize>, bases: usize, look: bool) -> impl Strategy<Value = Script> {
    (prop::collection::vec(base(), 0..bases), prop::collection::vec(vop(c, true), len)).prop_map(move |(bases, mut ops)| {
        if !bases.is_empty() {
            for i in 0..bases.len() {
                ops.insert(0, VOp::Load { reg: i as u8, base: i as u8 });
            }
        }
        if !look {
            return Script { bases, ops };
        }
        for r in 0..driver::N_PP as u8 {
            for s in 0..6 {
                ops.push(VOp::Any { code: op::PP_OBS, args: [r, s, 0, 0, 0, 0] });
            }
            ops.push(VOp::Any { code: op::PP_SFEN, args: [r, 0, 0, 0, 0, 0] });
            ops.push(VOp::Any { code: op::PP_FIELDS, args: [r, 0, 0, 0, 0, 0] });
        }
        for r in 0..driver::N_POS as u8 {
            for s in 0..5 {
                ops.push(VOp::Any { code: op::POS_OBS, args: [r, s, 0, 0, 0, 0] });
            }
        }
        for r in 0..driver::N_BB as u8 {
            ops.push(VOp::Any { code: op::BB_DUMP, args: [r, 0, 0, 0, 0, 0] });
        }
        for r in 0..driver::N_HAND as u8 {
            ops.push(VOp::Any { code: op::HAND_DUMP, args: [r, 0, 0, 0, 0, 0] });
        }
        Script { bases, ops }
    })
}
/// A game with looks at the position in between.
pub fn game_script(c: bool, len: std::ops::Range<usize>) -> impl Strategy<Value = Script> {
    (prop::collection::vec(play_base(), 1..2), any::<bool>(), prop::collection::vec((op_(MOVES), any::<bool>(), any::<u8>()), len)).prop_map(move |(bases, hist, moves)| {
        let mut ops = vec![VOp::Load { reg: 0, base: 0 }];
        if hist && !c {
            ops.push(VOp::Arb { reg: 0, from: 0 });
        }
        for (op, full, look) in moves {
            ops.push(VOp::Play { hist, reg: 0, full, op });
            if look < 80 {
                let code = if hist { op::POS_OBS } else { op::PP_OBS };
                ops.push(VOp::Any { code, args: [0, look, 0, 0, 0, 0] });
            } else if look < 100 {
                ops.push(VOp::Any { code: if hist { op::POS_SFEN } else { op::PP_SFEN }, args: [0; 6] });
            }
        }
        if hist {
            ops.push(VOp::Inner { reg: 0, to: 1 });
            ops.push(VOp::Initial { reg: 0, to: 2 });
        }
        for r in 0..3u8 {
            for s in 0..6 {
                ops.push(VOp::Any { code: op::PP_OBS, args: [r, s, 0, 0, 0, 0] });
            }
            ops.push(VOp::Any { code: op::PP_FIELDS, args: [r, 0, 0, 0, 0, 0] });
            ops.push(VOp::Any { code: op::PP_SFEN, args: [r, 0, 0, 0, 0, 0] });
        }
        Script { bases, ops }
    })
}

pub fn op_name(code: u8) -> String {
    let known: &[(u8, &str)] = &[
        (op::SQ_INFO, "Square getters"),
        (op::SQ_NEW, "Square_new / new_relative"),
        (op::SQ_FROM_U8, "Square_from_u8"),
        (op::SQ_SHIFT, "Square_shift"),
        (op::PK_INFO, "PieceKind promote/unpromote/from_u8_unchecked/is_hand_piece"),
        (op::PK_FROM_U8, "PieceKind_from_u8"),
        (op::PIECE_INFO, "Piece getters"),
        (op::PIECE_NEW, "Piece_new"),
        (op::COLOR_INFO, "Color_flip"),
        (op::ENUMS, "GameResolution/IllegalMoveKind from_u8_unchecked"),
        (op::CM_NORMAL, "CompactMove_normal and getters"),
        (op::CM_DROP, "CompactMove_drop and getters"),
        (op::BB_POP, "Bitboard_pop"),
        (op::BB_POPALL, "Bitboard_pop until empty"),
        (op::BB_DUMP, "Bitboard contains/count/is_empty"),
        (op::HAND_ADD, "Hand_add"),
        (op::HAND_REMOVE, "Hand_remove"),
        (op::HAND_DUMP, "Hand_count"),
        (op::PP_MOVE, "PartialPosition make_compact_move"),
        (op::PP_OBS, "PartialPosition getters"),
        (op::PP_SFEN, "PartialPosition to_sfen"),
        (op::PP_FIELDS, "the fields of PartialPosition"),
        (op::POS_MOVE, "Position make_compact_move"),
        (op::POS_OBS, "Position getters"),
        (op::POS_SFEN, "Position to_sfen"),
    ];
    known.iter().find(|k| k.0 == code).map_or(format!("operation {code}"), |k| k.1.to_string())
}

/// The first difference of two transcripts of the same script.
pub fn differ(script: &[u8], a: &[u8], an: &str, b: &[u8], bn: &str) -> Check {
    if a == b {
        return Ok(());
    }
    let (x, y) = (driver::entries(a), driver::entries(b));
    if x.len() != y.len() {
        return Err(format!("{an} and {bn} give transcripts of different length ({} and {} entries)", x.len(), y.len()));
    }
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        let ins = &script[8 * i..8 * i + 8];
        if !driver::same(ins[0], *p, *q) {
            return Err(format!("operation {i} ({}, {:?}): {an} gives {:?}, {bn} gives {:?}", op_name(ins[0]), &ins[1..], p.unwrap_or(&[]), q.unwrap_or(&[])));
        }
    }
    Ok(())
}

pub const SCRIPT_RULE: &str = "scripts of calls over several objects of every type; non-trivial: at least one accepted move and at least ten operations";

pub fn judge(k: &Compiled, t: &mut Tally) {
    if k.moves > 0 && k.bytes.len() >= 80 {
        t.nontrivial();
    }
    t.count("operations", k.bytes.len() as u64 / 8);
    t.count("accepted moves", k.moves as u64);
}

// ------------------------------------------------------------------------------------------------ C22

fn safe(bytes: &[u8]) -> Check {
    for compat in [false, true] {
        let t = driver::run(bytes, &[], compat);
        if let Some(i) = driver::first_invalid(&t) {
            return Err(format!("operation {i} ({}, {:?}) hands out an invalid value: {:?}", op_name(bytes[8 * i]), &bytes[8 * i + 1..8 * i + 8], driver::entries(&t)[i]));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RawScript(pub Vec<[u8; 8]>);
pub fn raw_script(len: std::ops::Range<usize>) -> impl Strategy<Value = RawScript> {
    let codes: Vec<u8> = (0..=255u8).collect();
    let useful: Vec<u8> = C_ANY.iter().chain(&C_OBS).chain(&RUST_ANY).copied().chain([op::PP_START, op::PP_COPY, op::PP_MOVE, op::PP_EMPTY, op::PP_SET, op::PP_HAND, op::PP_SIDE, op::PP_PLY, op::PP_MOVE_FULL, op::POS_NEW, op::POS_MOVE, op::POS_INNER, op::POS_INITIAL, op::POS_ARB, op::POS_CLONE, op::POS_SET, op::POS_HAND, op::POS_MOVE_FULL, op::LEGAL]).collect();
    let code = prop_oneof![1 => prop::sample::select(codes), 30 => prop::sample::select(useful)];
    prop::collection::vec((code, args(), any::<u8>()).prop_map(|(c, a, z)| [c, a[0], a[1], a[2], a[3], a[4], a[5], z]), len).prop_map(RawScript)
}

pub fn c22(ctx: &mut Ctx) {
    ctx.explore("scripts", SCRIPT_RULE, 30_000, 1_500_000, || script(false, 5..60), |s: &Script, t| {
        let k = compile(s, false);
        judge(&k, t);
        safe(&k.bytes)
    });
    ctx.explore("games", SCRIPT_RULE, 6_000, 200_000, || game_script(false, 20..250), |s: &Script, t| {
        let k = compile(s, false);
        judge(&k, t);
        safe(&k.bytes)
    });
    ctx.explore("any bytes", "operations and arguments drawn without regard to sense; non-trivial: at least five operations", 60_000, 4_000_000, || raw_script(1..80), |s: &RawScript, t| {
        if s.0.len() >= 5 {
            t.nontrivial();
        }
        safe(&s.0.concat())
    });
    let tools = ctx.tools.clone();
    let scratch = ctx.scratch.clone();
    ctx.explore_batches(
        "under Miri",
        "as 'scripts', run under Miri (undefined behaviour, leaks, overflow, panics); non-trivial: at least one accepted move",
        (160, 8_000, 10),
        || script_(false, 4..40, 2, false),
        |s: &Script| compile(s, false).moves > 0,
        |vs, beat| miri(&format!("{tools}/miri.sh"), &scratch, MiriMode::Safe, &vs.iter().map(|s| compile(s, false).bytes).collect::<Vec<_>>(), beat),
    );
    ctx.explore_batches(
        "any bytes under Miri",
        "as 'any bytes', under Miri; non-trivial: at least five operations",
        (160, 8_000, 10),
        || raw_script(1..40),
        |s: &RawScript| s.0.len() >= 5,
        |vs, beat| miri(&format!("{tools}/miri.sh"), &scratch, MiriMode::Safe, &vs.iter().map(|s| s.0.concat()).collect::<Vec<_>>(), beat),
    );
    for (kind, what) in [("address", "accesses outside objects, use after free"), ("memory", "use of uninitialised memory")] {
        let program = format!("{tools}/san-{kind}");
        if !std::path::Path::new(&program).exists() {
            continue;
        }
        ctx.explore_batches(
            &format!("under the {kind} sanitizer"),
            &format!("as 'scripts', in a build with the {kind} sanitizer, standard library included ({what}; debug assertions, overflow); non-trivial: at least one accepted move"),
            (40_000, 2_000_000, 250),
            || script_(false, 4..60, 2, false),
            |s: &Script| compile(s, false).moves > 0,
            |vs, beat| miri(&program, &scratch, MiriMode::Safe, &vs.iter().map(|s| compile(s, false).bytes).collect::<Vec<_>>(), beat),
        );
        ctx.explore_batches(
            &format!("any bytes under the {kind} sanitizer"),
            &format!("as 'any bytes', with the {kind} sanitizer; non-trivial: at least five operations"),
            (40_000, 2_000_000, 250),
            || raw_script(1..60),
            |s: &RawScript| s.0.len() >= 5,
            |vs, beat| miri(&program, &scratch, MiriMode::Safe, &vs.iter().map(|s| s.0.concat()).collect::<Vec<_>>(), beat),
        );
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum MiriMode {
    Safe,
    Compare,
    Threads,
}
/// Runs scripts in driver's binary under Miri or with a sanitizer, in one process. With `compare`, the transcripts must be those of the harness's build.
pub fn miri(program: &str, scratch: &str, mode: MiriMode, scripts: &[Vec<u8>], beat: &dyn Fn()) -> Result<(), (usize, String)> {
    use std::io::{BufRead, BufReader, Read};
    let compare = mode == MiriMode::Compare;
    let file = format!("{scratch}/miri-scripts");
    let out_file = format!("{scratch}/miri-transcripts");
    let mut data = Vec::new();
    for s in scripts {
        data.extend_from_slice(&(s.len() as u32).to_le_bytes());
        data.extend_from_slice(s);
    }
    std::fs::write(&file, data).map_err(|e| (0, format!("harness: {e}")))?;
    let mut child = std::process::Command::new(program)
        .arg(&file)
        // leaks are Miri's
        .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66:symbolize=0:allocator_may_return_null=1")
        .env("MSAN_OPTIONS", "exitcode=66:symbolize=0")
        .env("TSAN_OPTIONS", "exitcode=66:symbolize=0:halt_on_error=1")
        .args(match mode {
            MiriMode::Safe => vec![],
            MiriMode::Compare => vec!["0".to_string(), scripts.len().to_string(), out_file.clone()],
            MiriMode::Threads => vec!["0".to_string(), scripts.len().to_string(), "threads".to_string()],
        })
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| (0, format!("harness: miri.sh: {e}")))?;
    let err = child.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = BufReader::new(err).read_to_string(&mut s);
        s
    });
    let mut at = 0;
    let mut done = false;
    let mut invalid = None;
    for l in BufReader::new(child.stdout.take().unwrap()).lines() {
        let Ok(l) = l else { break };
        beat();
        if let Some(n) = l.strip_prefix("script ") {
            at = n.parse().unwrap_or(0);
        } else if l.starts_with("done") {
            done = true;
        } else if let Some(m) = l.strip_prefix("invalid ") {
            invalid = Some(m.to_string());
        }
    }
    let st = child.wait().map_err(|e| (0, format!("harness: {e}")))?;
    let text = errs.join().unwrap_or_default();
    if st.success() && done {
        if compare {
            let data = std::fs::read(&out_file).map_err(|e| (0, format!("harness: {e}")))?;
            let mut at = 0;
            for (k, s) in scripts.iter().enumerate() {
                let n = u32::from_le_bytes(data[at..at + 4].try_into().unwrap()) as usize;
                let got = &data[at + 4..at + 4 + n];
                at += 4 + n;
                differ(s, &driver::run(s, &[], k % 2 == 1), "the reference build (64 bits, little-endian)", got, "a build for 32 bits, big-endian (under Miri)").map_err(|e| (k, e))?;
            }
        }
        return Ok(());
    }
    if let Some(m) = invalid {
        return Err((at, if mode == MiriMode::Threads { format!("in another build ({program}): {m}") } else { format!("in another build ({program}), an invalid value is handed out: {m}") }));
    }
    // the compiler's warnings about the sources come first
    let under = program.rsplit('/').next().unwrap_or(program);
    let under = if let Some(k) = under.strip_prefix("san-") { format!("with the {k} sanitizer") } else { "under Miri".to_string() };
    let sanitizer = under != "under Miri";
    let starts = |l: &str| l.starts_with("error") || l.starts_with("thread '") || l.contains("Sanitizer") || l.contains("overflowed its stack");
    let text = text.lines().skip_while(|l| !starts(l)).take(60).collect::<Vec<_>>().join("\n");
    let what = ["Undefined Behavior", "panicked", "memory leaked", "abnormal termination", "entering unreachable code", "overflow", "Data race"];
    let report = sanitizer && ["ERROR: ", "WARNING: "].iter().any(|w| text.contains(w)) && text.contains("Sanitizer: ") && !text.contains("FATAL: ");
    use std::os::unix::process::ExitStatusExt;
    // not when the system ended it
    let died = sanitizer && st.signal().is_some_and(|s| s != libc::SIGKILL && s != libc::SIGTERM);
    if what.iter().any(|w| text.contains(w)) || report || died {
        return Err((at.min(scripts.len() - 1), format!("{under} ({st}):\n{text}")));
    }
    Err((0, format!("harness: the run {under} failed: {st}\n{text}")))
}

// ------------------------------------------------------------------------------------------------ C27

type VmRun = unsafe extern "C" fn(*const u8, usize, *mut u8, usize, bool) -> usize;
struct Build {
    name: String,
    run: VmRun,
    /// Without `Position` the calls on it have no effect on anything else either: they are left out for this build.
    positions: bool,
}
static BUILDS: OnceLock<Result<Vec<Build>, String>> = OnceLock::new();

/// `tools/vm-builds`: lines "name path".
fn builds(tools: &str) -> Result<&'static [Build], String> {
    BUILDS
        .get_or_init(|| {
            let list = std::fs::read_to_string(format!("{tools}/vm-builds")).map_err(|e| format!("harness: vm-builds: {e}"))?;
            let mut v = Vec::new();
            for l in list.lines() {
                let Some((name, path)) = l.split_once('\t') else { continue };
                let p = CString::new(path).unwrap();
                unsafe {
                    let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL | libc::RTLD_DEEPBIND);
                    if h.is_null() {
                        return Err(format!("harness: {path}: {}", std::ffi::CStr::from_ptr(libc::dlerror()).to_string_lossy()));
                    }
                    let f = libc::dlsym(h, c"vm_run".as_ptr());
                    if f.is_null() {
                        return Err(format!("harness: {path} has no vm_run"));
                    }
                    let run = std::mem::transmute::<*mut libc::c_void, VmRun>(f);
                    let mut out = [0u8; 64];
                    let probe = [op::POS_NEW, 0, 0, 0, 0, 0, 0, 0];
                    let n = run(probe.as_ptr(), probe.len(), out.as_mut_ptr(), out.len(), false);
                    v.push(Build { name: name.into(), run, positions: n == 2 && out[..2] == [0, 0] });
                }
            }
            Ok(v)
        })
        .as_ref()
        .map(|v| v.as_slice())
        .map_err(|e| e.clone())
}

fn needs_position(code: u8) -> bool {
    matches!(code, op::POS_NEW..=op::POS_INITIAL | op::POS_ARB..=op::POS_LAST | op::LEGAL)
}
fn all_builds(tools: &str, bytes: &[u8], t: &mut Tally) -> Check {
    let full = bytes;
    let without: Vec<u8> = bytes.chunks_exact(8).filter(|i| !needs_position(i[0])).flatten().copied().collect();
    let (want_full, want_without) = (driver::run(full, &[], false), driver::run(&without, &[], false));
    let mut buf = vec![0u8; want_full.len() + 65536];
    for b in builds(tools)? {
        let (bytes, want) = if b.positions { (full, &want_full) } else { (&without[..], &want_without) };
        let n = unsafe { (b.run)(bytes.as_ptr(), bytes.len(), buf.as_mut_ptr(), buf.len(), false) };
        if n == usize::MAX {
            return Err(format!("the build '{}' gives a much longer transcript", b.name));
        }
        differ(bytes, want, "the reference build (all features, optimised)", &buf[..n], &format!("the build '{}'", b.name))?;
        t.count("comparisons of two builds", 1);
    }
    Ok(())
}

pub fn c27(ctx: &mut Ctx) {
    let tools = ctx.tools.clone();
    ctx.explore("scripts", SCRIPT_RULE, 6_000, 400_000, || script(false, 5..80), |s: &Script, t| {
        let k = compile(s, false);
        judge(&k, t);
        all_builds(&tools, &k.bytes, t)
    });
    ctx.explore("games", SCRIPT_RULE, 1_500, 60_000, || game_script(false, 20..250), |s: &Script, t| {
        let k = compile(s, false);
        judge(&k, t);
        all_builds(&tools, &k.bytes, t)
    });
    ctx.explore("any bytes", "operations and arguments drawn without regard to sense; non-trivial: at least five operations", 12_000, 1_000_000, || raw_script(1..80), |s: &RawScript, t| {
        if s.0.len() >= 5 {
            t.nontrivial();
        }
        all_builds(&tools, &s.0.concat(), t)
    });
    let scratch = ctx.scratch.clone();
    ctx.explore_batches(
        "another platform",
        "as 'scripts', run by Miri as a program for a 32-bit, big-endian processor; non-trivial: at least one accepted move",
        (80, 6_000, 10),
        || script_(false, 4..30, 2, false),
        |s: &Script| compile(s, false).moves > 0,
        |vs, beat| miri(&format!("{tools}/miri-be.sh"), &scratch, MiriMode::Compare, &vs.iter().map(|s| compile(s, false).bytes).collect::<Vec<_>>(), beat),
    );
    ctx.explore_batches(
        "any bytes on another platform",
        "as 'any bytes', run by Miri as a program for a 32-bit, big-endian processor; non-trivial: at least five operations",
        (80, 6_000, 10),
        || raw_script(1..30),
        |s: &RawScript| s.0.len() >= 5,
        |vs, beat| miri(&format!("{tools}/miri-be.sh"), &scratch, MiriMode::Compare, &vs.iter().map(|s| s.0.concat()).collect::<Vec<_>>(), beat),
    );
    let tools2 = tools.clone();
    ctx.enumerate("values", "every argument of the functions on squares, kinds, pieces, colours and compact moves; non-trivial: all", super::capi::SCALARS, 8, |i| i, move |&i: &u64, t| {
        t.nontrivial();
        all_builds(&tools2, &super::capi::scalar_script(i), t)
    });
}
