//! C28, C29, C30, C31: editing, interchangeable positions, threads, written games.
use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::position::{build_shuffled, classify, reach, shuffle_into};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shogi_core::*;

// ------------------------------------------------------------------------------------------------ C28

/// Edits `p` as told; the answers are checked too.
fn edit(p: &mut PartialPosition, a: Act, whole: bool) -> Check {
    match a {
        Act::Ply(n) => {
            let r = p.ply_set(n);
            ensure!(r == (n != 0), "ply_set({n}) returned {r}");
        }
        Act::Hand(c, k, v) if whole => {
            // the whole hand at once
            let mut counts = hands_of(p)?[c];
            counts[k as usize] = v;
            *p.hand_of_a_player_mut(COLORS[c]) = hand(&counts);
        }
        a => act_on_real(p, a),
    }
    Ok(())
}
/// What undoes it.
fn inverse(m: &MPos, a: Act) -> Act {
    match a {
        Act::Set(s, _) => Act::Set(s, m.board[s as usize]),
        Act::Hand(c, k, _) => Act::Hand(c, k, m.hands[c][k as usize]),
        Act::Side(_) => Act::Side(m.side),
        Act::Ply(_) => Act::Ply(m.ply),
        a => a,
    }
}
/// Which aspect it touches.
fn aspect(a: Act) -> u32 {
    match a {
        Act::Set(s, _) => s as u32,
        Act::Hand(c, k, _) => 100 + 10 * c as u32 + k as u32,
        Act::Side(_) => 200,
        Act::Ply(_) => 201,
        _ => 202,
    }
}
fn act_class(a: Act) -> &'static str {
    match a {
        Act::Set(_, NONE) => "square cleared",
        Act::Set(..) => "piece put",
        Act::Hand(..) => "hand edited",
        Act::Side(_) => "side set",
        Act::Ply(0) => "ply 0 refused",
        Act::Ply(_) => "ply set",
        Act::Mv(_) => "move",
        Act::Nop => "nothing",
    }
}
fn edit_op() -> impl Strategy<Value = Op> {
    prop_oneof![
        9 => (0u8..81, prop_oneof![3 => 0u8..28, 1 => Just(28u8)]).prop_map(|(sq, piece)| Op::Set { sq, piece }),
        2 => (0u8..81, prop::sample::select(vec![7u8, 21, 28])).prop_map(|(sq, piece)| Op::Set { sq, piece }),
        4 => (0u8..14, count()).prop_map(|(slot, val)| Op::Hand { slot, val }),
        2 => any::<bool>().prop_map(Op::Side),
        2 => ply().prop_map(Op::Ply),
        1 => Just(Op::Ply(0)),
        3 => op(MOVES),
    ]
}

pub fn c28(c: &mut Ctx) {
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct Case {
        h: Hist,
        salt: u64,
    }
    c.explore(
        "edit-histories",
        "edits of every aspect, and moves, of positions with and without history; everything observed after each, each repeated and undone, the last ones made in another order; non-trivial: two aspects edited",
        20_000,
        1_200_000,
        || (base(), prop::collection::vec(edit_op(), 1..30), any::<u64>()).prop_map(|(base, ops, salt)| Case { h: Hist { base, ops }, salt }),
        |x: &Case, t| {
            let mut m = x.h.base.build();
            let mut p = build_base(&x.h.base, &m);
            let mut q = Position::arbitrary_position(p.clone());
            let (m0, mut mq) = (m.clone(), m.clone());
            let mut moves: Vec<MMove> = vec![];
            let mut aspects = std::collections::HashSet::new();
            // edits since the last move, and where they started
            let mut run: Vec<Act> = vec![];
            let mut run_from = p.clone();
            for (i, op) in x.h.ops.iter().enumerate() {
                let r = mix(x.salt ^ i as u64);
                let act = resolve(op, &m);
                t.class(act_class(act));
                let before = m.clone();
                let wrap = |e: String| ctx_err(&before, format!("step {i}: {act:?}"), e);
                match act {
                    Act::Nop => continue,
                    Act::Mv(y) => {
                        let e = m.apply(y);
                        let g = p.make_move(mv(y));
                        ensure!(g.is_some() == e.is_ok(), "{}", wrap(format!("got {g:?}, expected {e:?}")));
                        run.clear();
                        run_from = p.clone();
                    }
                    a => {
                        aspects.insert(aspect(a));
                        let copy = p.clone();
                        act_on_model(&mut m, a);
                        edit(&mut p, a, r & 1 == 1).map_err(wrap)?;
                        if r & 6 == 0 {
                            observe(&copy, &before).map_err(|e| wrap(format!("a copy made before the edit: {e}")))?;
                        }
                        let once = p.clone();
                        edit(&mut p, a, r & 8 == 0).map_err(wrap)?;
                        ensure!(p == once, "{}", wrap("repeating the edit changed something".into()));
                        if before.ply != 0 {
                            let mut u = once;
                            edit(&mut u, inverse(&before, a), r & 16 == 0).map_err(wrap)?;
                            ensure!(u == copy, "{}", wrap(format!("undoing the edit gives {u:?}, not {copy:?}")));
                        }
                        run.push(a);
                    }
                }
                observe(&p, &m).map_err(wrap)?;
                // with history
                match act {
                    Act::Set(s, y) => {
                        #[allow(deprecated)]
                        q.piece_set(sq(s), opc(y));
                        act_on_model(&mut mq, act);
                    }
                    Act::Hand(c, k, v) => {
                        #[allow(deprecated)]
                        let h = q.hand_of_a_player_mut(COLORS[c]);
                        let mut counts = [0u8; 8];
                        for j in 1..=7u8 {
                            counts[j as usize] = h.count(kind(j)).expect("count");
                        }
                        counts[k as usize] = v;
                        set_hand(h, &counts);
                        act_on_model(&mut mq, act);
                    }
                    Act::Mv(y) => {
                        let y = match resolve(op, &mq) {
                            Act::Mv(z) => z,
                            _ => y,
                        };
                        let e = mq.apply(y);
                        let g = q.make_move(mv(y));
                        ensure!(g.is_some() == e.is_ok(), "{}", wrap(format!("with history: got {g:?}, expected {e:?} to {}", y.usi())));
                        if e.is_ok() {
                            moves.push(y);
                        }
                    }
                    _ => {}
                }
                observe(&q, &mq).map_err(|e| wrap(format!("with history: {e}")))?;
                ensure!(q.moves().len() == moves.len(), "{}", wrap("with history: the recorded moves changed".into()));
            }
            ensure!(q.moves().iter().zip(&moves).all(|(a, b)| *a == mv(*b)), "the recorded moves are {:?}, expected {moves:?}", q.moves());
            observe(q.initial_position(), &m0).map_err(|e| format!("the initial position changed with edits: {e}"))?;
            // the last run of edits in another order: those of one aspect stay in theirs
            let mut order: Vec<(u64, usize)> = run.iter().enumerate().map(|(i, a)| (mix(x.salt ^ (aspect(*a) as u64) << 20), i)).collect();
            order.sort();
            let mut r = run_from;
            for (_, i) in order {
                edit(&mut r, run[i], false)?;
            }
            ensure!(r == p, "the last {} edits in another order give {r:?}, not {p:?}", run.len());
            if aspects.len() >= 2 {
                t.nontrivial();
            }
            Ok(())
        },
    );
    c.enumerate("plies", "every ply 0..=65535 set on a hashed background; non-trivial: all", 65536, 2, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let mut m = MPos::start();
        m.ply = (mix(i) as u16).max(1);
        m.side = (mix(i) >> 20 & 1) as usize;
        let mut p = build(&m);
        let r = p.ply_set(i as u16);
        ensure!(r == (i != 0), "ply_set({i}) returned {r}");
        if i != 0 {
            m.ply = i as u16;
        }
        observe_rest(&p, &m)?;
        if i % 64 == 0 {
            observe(&p, &m)?;
        }
        Ok(())
    });
    c.enumerate("hands", "every (player, kind, old count, new count from {0, 1, old, 255 - old, hashed}) in place, and with the whole hand; non-trivial: counts differ", 14 * 256 * 5, 2, |i| i, |&i: &u64, t| {
        let (slot, old) = (i % 14, (i / 14 % 256) as u8);
        let new = [0, 1, old, 255 - old, mix(i) as u8][(i / 14 / 256) as usize];
        let (c, k) = ((slot / 7) as usize, (slot % 7 + 1) as u8);
        let mut m = MPos::start();
        for j in 0..14u64 {
            m.hands[(j / 7) as usize][(j % 7 + 1) as usize] = (mix(i ^ j << 32) % 4) as u8;
        }
        m.hands[c][k as usize] = old;
        let mut p = build(&m);
        m.hands[c][k as usize] = new;
        edit(&mut p, Act::Hand(c, k, new), i % 2 == 0)?;
        observe_rest(&p, &m)?;
        if i % 16 == 0 {
            observe(&p, &m)?;
        }
        if old != new {
            t.nontrivial();
        }
        Ok(())
    });
    c.enumerate("constructors", "the empty and the starting position by every constructor, in memory that held something else; non-trivial: all", 6, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let garbage = [0u8, 0xff, 0x55][i as usize % 3];
        let mut buf = std::mem::MaybeUninit::<PartialPosition>::uninit();
        unsafe { std::ptr::write_bytes(buf.as_mut_ptr(), garbage, 1) };
        PartialPosition::PartialPosition_startpos(&mut buf);
        let a = unsafe { buf.assume_init() };
        for p in [&a, &PartialPosition::startpos(), &PartialPosition::default()] {
            observe(p, &MPos::start())?;
            ensure!(*p == PartialPosition::startpos(), "two starting positions differ");
        }
        observe(&PartialPosition::empty(), &MPos::empty())?;
        ensure!(PartialPosition::empty() == PartialPosition::empty(), "two empty positions differ");
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C29

/// Another way to the visible state of `m`, its last move included.
fn another_way(m: &MPos, salt: u64) -> Result<PartialPosition, String> {
    let Some(last) = m.last else { return Ok(build_shuffled(m, salt)) };
    let mut pre = MPos::empty();
    pre.ply = if m.ply == 0 { 65535 } else { (salt >> 8) as u16 % 999 + 1 };
    match last {
        MMove::Normal { from, to, .. } => {
            pre.side = (salt >> 33 & 1) as usize;
            pre.board[from as usize] = piece([1u8, 2, 3, 4, 6, 7][(salt >> 34) as usize % 6], pre.side);
            if salt >> 40 & 1 == 1 && from != to {
                pre.board[to as usize] = piece((salt >> 41) as u8 % 7 + 1, 1 - pre.side);
            }
        }
        MMove::Drop { piece: q, .. } => {
            pre.side = color_of(q);
            pre.hands[pre.side][kind_of(q) as usize] = 1 + (salt >> 34) as u8 % 5;
        }
    }
    let mut p = build_shuffled(&pre, mix(salt));
    ensure!(p.make_move(mv(last)).is_some(), "{} is refused in {}", last.usi(), pre.sfen());
    shuffle_into(&mut p, m, salt);
    Ok(p)
}
fn same_answers(a: &impl View, b: &impl View) -> Check {
    ensure!(a.v_side() == b.v_side() && a.v_ply() == b.v_ply(), "side or ply differ");
    ensure!(a.v_last() == b.v_last() && a.v_last_c() == b.v_last_c(), "last moves differ");
    for c in COLORS {
        ensure!(a.v_hand_of(c) == b.v_hand_of(c), "hands of {c:?} differ");
        ensure!(a.v_player(c) == b.v_player(c), "squares of {c:?} differ");
        ensure!(a.v_king(c) == b.v_king(c), "kings of {c:?} differ: {:?} and {:?}", a.v_king(c).map(|s| s.to_usi_owned()), b.v_king(c).map(|s| s.to_usi_owned()));
    }
    for k in KINDS {
        ensure!(a.v_kind(k) == b.v_kind(k), "squares of {k:?} differ");
    }
    for s in Square::all() {
        ensure!(a.v_at(s) == b.v_at(s), "contents of {} differ", s.to_usi_owned());
    }
    ensure!(a.v_occ() == b.v_occ() && a.v_vac() == b.v_vac(), "occupied or vacant squares differ");
    ensure_eq!(a.v_sfen(), b.v_sfen(), "texts differ");
    Ok(())
}
fn indistinguishable<T: View + Ord + std::hash::Hash + std::fmt::Debug>(a: &T, b: &T) -> Check {
    ensure!(a == b && b == a, "not equal:\n  {a:?}\n  {b:?}");
    ensure!(a.cmp(b).is_eq() && hash_std(a) == hash_std(b), "ordered or hashed apart");
    same_answers(a, b)
}

pub fn c29(c: &mut Ctx) {
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct Case {
        pre: Hist,
        salt: u64,
        ops: Vec<Op>,
    }
    let strat = |w: Weights, len: std::ops::Range<usize>| (hist(base().boxed(), w, 0..14), any::<u64>(), prop::collection::vec(op(w), len)).prop_map(|(pre, salt, ops)| Case { pre, salt, ops });
    let check = |x: &Case, t: &mut Tally| -> Check {
        let (mut m, mut p) = reach(&x.pre)?;
        let mut q = another_way(&m, x.salt)?;
        let at = m.sfen();
        indistinguishable(&p, &q).map_err(|e| format!("{at} (last move {:?}) reached in two ways: {e}", m.last.map(|x| x.usi())))?;
        t.class(if m.last.is_some() { "with a last move" } else { "without a last move" });
        let (mut hp, mut hq) = (Position::arbitrary_position(p.clone()), Position::arbitrary_position(q.clone()));
        indistinguishable(&hp, &hq)?;
        let mut moved = false;
        for (i, op) in x.ops.iter().enumerate() {
            let act = resolve(op, &m);
            let before = m.clone();
            let wrap = |e: String| ctx_err(&before, format!("{at} reached in two ways, then step {i}: {act:?}"), e);
            match act {
                Act::Nop => continue,
                Act::Mv(y) => {
                    let e = m.apply(y);
                    classify(&before, y, &e, t);
                    moved |= e.is_ok();
                    let (a, b) = (p.make_move(mv(y)), if x.salt >> (i % 64) & 1 == 1 { q.make_compact_move(cmv(y)).then_some(()) } else { q.make_move(mv(y)) });
                    ensure!(a == b, "{}", wrap(format!("accepted in one, refused in the other: {a:?}, {b:?}")));
                    let (a, b) = (hp.make_move(mv(y)), hq.make_move(mv(y)));
                    ensure!(a == b, "{}", wrap(format!("with history: accepted in one, refused in the other: {a:?}, {b:?}")));
                }
                a => {
                    act_on_model(&mut m, a);
                    act_on_real(&mut p, a);
                    act_on_real(&mut q, a);
                    // positions with history cannot be edited in all these ways
                    hp = Position::arbitrary_position(p.clone());
                    hq = Position::arbitrary_position(q.clone());
                }
            }
            indistinguishable(&p, &q).map_err(wrap)?;
            indistinguishable(&hp, &hq).map_err(|e| wrap(format!("with history: {e}")))?;
            ensure!(hp.moves() == hq.moves(), "{}", wrap("recorded moves differ".into()));
        }
        if moved {
            t.nontrivial();
        }
        Ok(())
    };
    c.explore("two-ways", "a position reached by a history, and its visible state brought about in another way (another last move's origin, detours, another order of edits); equal at once and after every step of a common continuation; non-trivial: a move of the continuation was accepted", 20_000, 1_000_000, || strat(MIXED, 0..24), check);
    c.explore("two-ways-with-kings", "as above, many kings", 10_000, 500_000, || strat(KINGS, 0..24), check);
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct Trans {
        base: Base,
        moves: [Op; 3],
        tail: Vec<Op>,
    }
    c.explore(
        "transpositions",
        "three moves of one player, interleaved with the same replies, in two orders, where both are playable and lead to the same place; non-trivial: they do",
        60_000,
        3_000_000,
        || (play_base(), prop::array::uniform3(op(Weights { near: 0, raw: 0, ..MOVES })), prop::collection::vec(op(MOVES), 0..10)).prop_map(|(base, moves, tail)| Trans { base, moves, tail }),
        |x: &Trans, t| {
            let m0 = x.base.build();
            let p0 = build_base(&x.base, &m0);
            // a, r, b as resolved one after the other; then b, r, a
            let mut m = m0.clone();
            let mut seq = vec![];
            for op in &x.moves {
                let Act::Mv(y) = resolve(op, &m) else { return Ok(()) };
                if m.apply(y).is_err() {
                    return Ok(());
                }
                seq.push(y);
            }
            let mut other = m0.clone();
            for k in [2, 1, 0] {
                if other.apply(seq[k]).is_err() {
                    return Ok(());
                }
            }
            other.last = m.last;
            if other != m {
                return Ok(());
            }
            t.nontrivial();
            let (mut p, mut q) = (p0.clone(), p0);
            for k in 0..3 {
                ensure!(p.make_move(mv(seq[k])).is_some() && q.make_move(mv(seq[2 - k])).is_some(), "{:?} is refused in one order or the other from {}", seq, m0.sfen());
            }
            // up to the last move the same, and wholly so after the next
            let (s, r) = (p.to_sfen_owned(), q.to_sfen_owned());
            ensure!(s == r, "{:?} in two orders from {}: {s} and {r}", seq, m0.sfen());
            for op in &x.tail {
                let Act::Mv(y) = resolve(op, &m) else { continue };
                let ok = m.apply(y).is_ok();
                let (a, b) = (p.make_move(mv(y)), q.make_move(mv(y)));
                ensure!(a == b && a.is_some() == ok, "{} after a transposition: {a:?}, {b:?}", y.usi());
                if m.last == Some(y) && ok {
                    indistinguishable(&p, &q).map_err(|e| format!("{seq:?} in two orders from {}, then {}: {e}", m0.sfen(), y.usi()))?;
                }
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C31

pub fn c31(c: &mut Ctx) {
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct Case {
        h: Hist,
        forms: u64,
        cut: usize,
    }
    let strat = |lo: usize, hi: usize| (hist(play_base().boxed(), Weights { near: 1, raw: 0, ..MOVES }, lo..hi), any::<u64>(), 0usize..hi).prop_map(|(h, forms, cut)| Case { h, forms, cut });
    let check = |x: &Case, t: &mut Tally| -> Check {
        let m0 = x.h.base.build();
        let mut m = m0.clone();
        let mut g = Position::arbitrary_position(build_base(&x.h.base, &m0));
        // where the second record starts
        let mut cut: Option<(usize, String, Position)> = None;
        for (i, op) in x.h.ops.iter().enumerate() {
            let Act::Mv(y) = resolve(op, &m) else { continue };
            let before = m.clone();
            let r = m.apply(y);
            classify(&before, y, &r, t);
            let got = g.make_move(mv(y));
            ensure!(got.is_some() == r.is_ok(), "{}", ctx_err(&before, y.usi(), format!("got {got:?}, expected {r:?}")));
            if i >= x.cut && cut.is_none() {
                cut = Some((g.moves().len(), g.to_sfen_owned(), g.clone()));
            }
        }
        // written
        let mut text = g.initial_position().to_sfen_owned();
        text.push_str(" moves");
        for (i, y) in g.moves().iter().enumerate() {
            text.push(' ');
            if x.forms >> (i % 64) & 1 == 1 {
                text.push_str(&compact(*y).to_usi_owned());
            } else {
                text.push_str(&y.to_usi_owned());
            }
        }
        // read
        let read = |start: &str, moves: &[&str]| -> Result<(Position, MPos), String> {
            let mut m = MPos::parse(start)?;
            let mut r = Position::arbitrary_position(if start == STARTPOS_SFEN { PartialPosition::startpos() } else { build(&m) });
            for (i, w) in moves.iter().enumerate() {
                let y = parse_usi_move(w, m.side).ok_or_else(|| format!("move {i}, {w:?}, cannot be read"))?;
                m.apply(y).map_err(|e| format!("move {i}, {w}, does not make sense as read ({e:?})"))?;
                ensure!(r.make_move(mv(y)).is_some(), "move {i}, {w}, is refused when replayed");
            }
            Ok((r, m))
        };
        let (start, rest) = text.split_once(" moves").ok_or("harness: no moves")?;
        let words: Vec<&str> = rest.split_whitespace().collect();
        ensure_eq!(words.len(), g.moves().len(), "number of moves written: {text:?}");
        let (r, mr) = read(start, &words).map_err(|e| format!("{e}: {text}"))?;
        ensure!(r == g, "the game read back differs: {text}\n  {r:?}\n  {g:?}");
        ensure!(r.moves() == g.moves(), "the moves read back differ: {text}");
        ensure!(mr == m, "the record, read without the library, leads to {} instead of {}: {text}", mr.sfen(), m.sfen());
        observe(&r, &m).map_err(|e| format!("{e}: {text}"))?;
        ensure_eq!(r.to_sfen_owned(), m.sfen(), "{text}");
        // from the middle
        if let Some((n, s, then)) = cut {
            if then.ply() != 0 && n < g.moves().len() {
                t.class("continued from the middle");
                let (r, _) = read(&s, &words[n..]).map_err(|e| format!("{e}: {s} moves {:?}", &words[n..]))?;
                ensure!(*r.inner() == *g.inner(), "the game read from its middle differs at the end: {s} moves {:?}\n  {:?}\n  {:?}", &words[n..], r.inner(), g.inner());
                ensure!(r.moves() == &g.moves()[n..], "the moves read from the middle differ: {s}");
            }
        }
        if g.moves().len() >= 2 {
            t.nontrivial();
        }
        Ok(())
    };
    c.explore("games", "a game written as the text of its initial position and its moves (both forms), read by an independent reader and replayed, from the beginning and from the middle; non-trivial: at least two moves", 40_000, 2_000_000, || strat(2, 60), check);
    c.explore("long-games", "as above, 100 to 500 operations", 1_500, 60_000, || strat(100, 500), check);
}

// ------------------------------------------------------------------------------------------------ C30

struct W<T>(std::marker::PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for W<T> {}
#[allow(dead_code)]
struct S<T>(std::marker::PhantomData<T>);
impl<T> No for S<T> {}
// the inherent constant goes first wherever it exists
impl<T: Send> W<T> {
    const SEND: bool = true;
}
impl<T: Sync> S<T> {
    const SYNC: bool = true;
}
macro_rules! threadable {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), W::<$t>::SEND, S::<$t>::SYNC)),*] };
}
const TYPES: &[(&str, bool, bool)] = {
    use shogi_core::c_compat::*;
    threadable!(
        Color,
        Square,
        PieceKind,
        Piece,
        Move,
        CompactMove,
        Hand,
        Bitboard,
        ByteSwappedBitboard,
        GameResolution,
        PartialGame,
        PartialPosition,
        Game,
        Position,
        IllegalMoveKind,
        PositionStatus,
        OptionPieceKind,
        OptionPiece,
        OptionSquare,
        OptionCompactMove,
        OptionGameResolution,
        ResultUnitIllegalMoveKind,
        Option<Square>,
        Vec<Move>,
    )
};

const _: () = assert!(!W::<std::rc::Rc<u8>>::SEND && !S::<std::cell::Cell<u8>>::SYNC && W::<u8>::SEND && S::<u8>::SYNC);

struct Shared<T>(T);
// whether the types may be shared is judged by TYPES
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

/// Runs `f(0..n)` in `n` threads that start together.
pub fn at_once<R: Send>(n: usize, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
    let gate = std::sync::Barrier::new(n);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|j| {
                let (gate, f) = (&gate, &f);
                s.spawn(move || {
                    gate.wait();
                    f(j)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    })
}

pub fn c30(c: &mut Ctx) {
    use crate::props::vm::*;
    c.enumerate("types", "every public type can be sent to and shared between threads; non-trivial: all", TYPES.len() as u64, 1, |i| i, |&i: &u64, t| {
        t.nontrivial();
        let (name, send, sync) = TYPES[i as usize];
        ensure!(send, "{name} cannot be sent to another thread");
        ensure!(sync, "{name} cannot be shared between threads");
        Ok(())
    });
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct Case {
        scripts: Vec<Script>,
        rounds: u8,
    }
    let run = |x: &Case, t: &mut Tally| -> Check {
        let ks: Vec<_> = x.scripts.iter().map(|s| compile(s, false)).collect();
        ks.iter().for_each(|k| judge(k, t));
        let n = ks.len();
        let alone: Vec<[Vec<u8>; 2]> = ks.iter().map(|k| [false, true].map(|c| driver::run(&k.bytes, &[], c))).collect();
        let together = at_once(n, |j| {
            for r in 0..x.rounds as usize {
                let k = (j + r) % n;
                let c = (j + r / n) % 2;
                let got = driver::run(&ks[k].bytes, &[], c == 1);
                if got != alone[k][c] {
                    return Some((k, c, got));
                }
            }
            None
        });
        for (k, c, got) in together.into_iter().flatten() {
            differ(&ks[k].bytes, &alone[k][c], "alone", &got, "beside other threads")?;
        }
        Ok(())
    };
    c.explore("scripts in threads", "two to five scripts of calls run over and over in as many threads at once, each on its own objects; every transcript is that of the script run alone; non-trivial: at least one accepted move and at least ten operations", 3_000, 120_000, || (prop::collection::vec(script(false, 5..60), 2..=5), 8u8..40).prop_map(|(scripts, rounds)| Case { scripts, rounds }), run);
    c.explore("games in threads", "as above, games", 1_500, 60_000, || (prop::collection::vec(game_script(false, 20..120), 2..=4), 8u8..24).prop_map(|(scripts, rounds)| Case { scripts, rounds }), run);
    c.explore(
        "one position, many readers",
        "a game and a position read by two to six threads at once (everything that can be asked, texts into buffers and sinks, copies played on); all read what one thread reads; non-trivial: at least two accepted moves",
        20_000,
        800_000,
        || (hist(play_base().boxed(), MOVES, 0..60), 2u8..=6),
        |(h, n): &(Hist, u8), t| {
            let m = h.base.build();
            let mut q = Position::arbitrary_position(build_base(&h.base, &m));
            let mut mm = m;
            for op in &h.ops {
                if let Act::Mv(y) = resolve(op, &mm) {
                    let e = mm.apply(y);
                    let g = q.make_move(mv(y));
                    ensure!(g.is_some() == e.is_ok(), "{} gives {g:?}, expected {e:?}", y.usi());
                }
            }
            if q.moves().len() >= 2 {
                t.nontrivial();
            }
            let p = q.inner().clone();
            let (h1, h2) = (hash_std(&q), hash_std(&p));
            let want = [false, true].map(|c| driver::read_all(&q, &p, c, false));
            let both = Shared((p, q));
            let both = &both;
            let got = at_once(*n as usize, |j| {
                let both: &Shared<(PartialPosition, Position)> = both;
                let (p, q) = &both.0;
                let mut bad = None;
                for r in 0..6 {
                    let c = (j + r) % 2;
                    let g = driver::read_all(q, p, c == 1, false);
                    if g != want[c] {
                        bad = Some((g, c));
                        break;
                    }
                    if hash_std(q) != h1 || hash_std(p) != h2 || q.inner() != p || q.inner().cmp(p).is_ne() {
                        bad = Some((vec![], c));
                    }
                }
                bad
            });
            for (g, c) in got.into_iter().flatten() {
                return Err(format!("read by several threads at once, a position at {} reads otherwise than by one:\n  {}\n  {}", mm.sfen(), String::from_utf8_lossy(&g), String::from_utf8_lossy(&want[c])));
            }
            Ok(())
        },
    );
    crate::props::capi::c30(c);
    let tools = c.tools.clone();
    let scratch = c.scratch.clone();
    c.explore_batches(
        "threads under Miri",
        "three scripts in three threads at once, then one position read by two, under Miri (data races and other undefined behaviour, transcripts); non-trivial: at least one accepted move",
        (48, 3_000, 6),
        || script_(false, 4..24, 2, false),
        |s: &Script| compile(s, false).moves > 0,
        |vs, beat| miri(&format!("{tools}/miri.sh"), &scratch, MiriMode::Threads, &vs.iter().map(|s| compile(s, false).bytes).collect::<Vec<_>>(), beat),
    );
    let program = format!("{tools}/san-thread");
    if std::path::Path::new(&program).exists() {
        c.explore_batches(
            "threads under the thread sanitizer",
            "as above, in a build with the thread sanitizer, standard library included (data races); non-trivial: at least one accepted move",
            (8_000, 400_000, 50),
            || script_(false, 4..60, 2, false),
            |s: &Script| compile(s, false).moves > 0,
            |vs, beat| miri(&program, &scratch, MiriMode::Threads, &vs.iter().map(|s| compile(s, false).bytes).collect::<Vec<_>>(), beat),
        );
    }
}
