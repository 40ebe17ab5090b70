//! C01..C06, C25: positions and histories.
use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::legal::{Mock, ILLEGAL};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shogi_core::*;
use std::sync::OnceLock;

fn refusal_class(r: Refusal) -> &'static str {
    match r {
        Refusal::VacantSource => "refused: vacant source",
        Refusal::NotYours => "refused: piece of the other player",
        Refusal::NoPromotedForm => "refused: no promoted form",
        Refusal::OwnOnTarget => "refused: own piece on target",
        Refusal::KingOnTarget => "refused: king on target",
        Refusal::DropNotYours => "refused: drop of the other player's piece",
        Refusal::DropPromoted => "refused: drop of a promoted piece",
        Refusal::DropKing => "refused: drop of a king",
        Refusal::DropOccupied => "refused: drop on an occupied square",
        Refusal::DropEmptyHand => "refused: drop without piece in hand",
    }
}
pub fn classify(before: &MPos, mv: MMove, res: &Result<(), Refusal>, t: &mut Tally) {
    match res {
        Err(r) => t.class(refusal_class(*r)),
        Ok(()) => match mv {
            MMove::Drop { .. } => {
                t.class("accepted: drop");
                t.nontrivial()
            }
            MMove::Normal { to, promote, .. } => {
                let occ = before.board[to as usize];
                if occ != NONE {
                    t.class(if unpromoted_form(kind_of(occ)).is_some() { "accepted: capture of a promoted piece" } else { "accepted: capture" });
                    t.nontrivial();
                }
                if promote {
                    t.class("accepted: promotion");
                    t.nontrivial();
                }
                if occ == NONE && !promote {
                    t.class("accepted: quiet move");
                }
            }
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Surface {
    Partial,
    PartialCompact,
    History,
    HistoryCompact,
}
pub const SURFACES: [Surface; 4] = [Surface::Partial, Surface::PartialCompact, Surface::History, Surface::HistoryCompact];

/// Applies `x` to a copy of `p` through a surface and checks the outcome against the model.
fn one_move(p: PartialPosition, m: &MPos, x: MMove, s: Surface, t: &mut Tally) -> Check {
    let mut after = m.clone();
    let exp = after.apply(x);
    classify(m, x, &exp, t);
    let check = |ok: bool, v: &dyn Fn(&MPos) -> Check| -> Check {
        ensure!(ok == exp.is_ok(), "{:?}: move {} was {}, but must be {} ({:?})", s, x.usi(), if ok { "accepted" } else { "refused" }, if exp.is_ok() { "accepted" } else { "refused" }, exp);
        v(&after)
    };
    let r = match s {
        Surface::Partial => {
            let mut p = p;
            let ok = p.make_move(mv(x)).is_some();
            check(ok, &|m| observe(&p, m))
        }
        Surface::PartialCompact => {
            let mut p = p;
            let ok = p.make_compact_move(cmv(x));
            check(ok, &|m| observe(&p, m))
        }
        Surface::History => {
            let mut q = Position::arbitrary_position(p);
            let ok = q.make_move(mv(x)).is_some();
            check(ok, &|m| observe(&q, m))
        }
        Surface::HistoryCompact => {
            let mut q = Position::arbitrary_position(p);
            let ok = q.make_compact_move(cmv(x));
            check(ok, &|m| observe(&q, m))
        }
    };
    r.map_err(|e| ctx_err(m, format!("{s:?} {x:?} {}", x.usi()), e))
}

/// Background positions for the sweeps, with their real counterparts.
struct Bg {
    m: MPos,
    p: PartialPosition,
}
fn backgrounds() -> &'static Vec<Bg> {
    static B: OnceLock<Vec<Bg>> = OnceLock::new();
    B.get_or_init(|| {
        let mut v = Vec::new();
        for i in 0..48u64 {
            let r = |k: u64| mix(i * 1000 + k);
            let mut m = MPos::empty();
            let fill = match i % 4 {
                0 => 0,
                1 => 6,
                2 => 25,
                _ => 60,
            };
            for k in 0..fill {
                let sq = (r(k) % 81) as usize;
                // two kings in most of them
                let p = if k < 2 && i % 8 != 5 { piece(KING, k as usize) } else { nth_piece((r(k + 100) % 28) as usize) };
                if m.board[sq] == NONE {
                    m.board[sq] = p;
                }
            }
            for c in 0..2 {
                for k in 1..=7 {
                    let x = r(500 + c as u64 * 10 + k as u64);
                    m.hands[c][k] = match x % 8 {
                        0..=2 => 0,
                        3 | 4 => 1,
                        5 => (x >> 8) as u8 % 20,
                        6 => 255,
                        _ => (x >> 8) as u8,
                    };
                }
            }
            m.ply = match r(900) % 4 {
                0 => (r(901) % 300) as u16 + 1,
                1 => 65535,
                2 => 255,
                _ => (r(901) % 65535) as u16 + 1,
            };
            v.push(Bg { p: build(&m), m });
        }
        v
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SweepCase {
    bg: usize,
    side: usize,
    mover: u8,
    promote: bool,
    occupant: u8,
    from: u8,
    to: u8,
    surface: usize,
}

pub fn c01(c: &mut Ctx) {
    c.enumerate(
        "board-moves",
        "every (side, mover piece, promote, occupant of target, source, target) on a hashed background and surface; non-trivial: accepted capture or promotion",
        2 * 28 * 2 * 29 * 81 * 81,
        11,
        |i| {
            let h = mix(i);
            let to = (i % 81) as u8;
            let j = i / 81;
            let from = (j % 81) as u8;
            let j = j / 81;
            let occ = (j % 29) as usize;
            let j = j / 29;
            SweepCase { promote: j % 2 == 1, side: (j / 2 % 2) as usize, mover: nth_piece((j / 4) as usize), occupant: if occ == 28 { NONE } else { nth_piece(occ) }, from, to, bg: (h % 48) as usize, surface: (h >> 32) as usize % 4 }
        },
        |s: &SweepCase, t| {
            let b = &backgrounds()[s.bg % 48];
            let mut m = b.m.clone();
            let mut p = b.p.clone();
            m.side = s.side;
            p.side_to_move_set(COLORS[s.side]);
            m.board[s.to as usize] = s.occupant;
            p.piece_set(sq(s.to), opc(s.occupant));
            m.board[s.from as usize] = s.mover;
            p.piece_set(sq(s.from), opc(s.mover));
            one_move(p, &m, MMove::Normal { from: s.from, to: s.to, promote: s.promote }, SURFACES[s.surface % 4], t)
        },
    );
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct DropCase {
        bg: usize,
        side: usize,
        piece: u8,
        occupant: u8,
        to: u8,
        count: u8,
        surface: usize,
    }
    const COUNTS: [u8; 6] = [0, 1, 2, 3, 19, 255];
    c.enumerate(
        "drops",
        "every (side, dropped piece, target, occupant, count in hand from 0,1,2,3,19,255); non-trivial: accepted",
        2 * 28 * 81 * 29 * 6,
        5,
        |i| {
            let h = mix(i ^ 0xd509);
            let to = (i % 81) as u8;
            let j = i / 81;
            let occ = (j % 29) as usize;
            let j = j / 29;
            let count = COUNTS[(j % 6) as usize];
            let j = j / 6;
            DropCase { side: (j % 2) as usize, piece: nth_piece((j / 2) as usize), occupant: if occ == 28 { NONE } else { nth_piece(occ) }, to, count, bg: (h % 48) as usize, surface: (h >> 32) as usize % 4 }
        },
        |s: &DropCase, t| {
            let b = &backgrounds()[s.bg % 48];
            let mut m = b.m.clone();
            let mut p = b.p.clone();
            m.side = s.side;
            p.side_to_move_set(COLORS[s.side]);
            m.board[s.to as usize] = s.occupant;
            p.piece_set(sq(s.to), opc(s.occupant));
            let k = kind_of(s.piece);
            let k = unpromoted_form(k).unwrap_or(k);
            if is_hand_kind(k) {
                m.hands[s.side][k as usize] = s.count;
                act_on_real(&mut p, Act::Hand(s.side, k, s.count));
            }
            one_move(p, &m, MMove::Drop { piece: s.piece, to: s.to }, SURFACES[s.surface % 4], t)
        },
    );
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct CountCase {
        side: usize,
        kind: u8,
        count: u8,
        drop: bool,
        mover: u8,
    }
    c.enumerate(
        "hand-counts",
        "every (side, captured kind or dropped kind, count already in hand 0..=255); non-trivial: accepted",
        2 * 2 * 13 * 256,
        1,
        |i| {
            let j = i / 256;
            let kinds = [1u8, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14];
            CountCase { count: (i % 256) as u8, drop: j % 2 == 1, side: (j / 2 % 2) as usize, kind: kinds[(j / 4) as usize], mover: 1 + (mix(i) % 14) as u8 }
        },
        |s: &CountCase, t| {
            let mut m = MPos::empty();
            let base = unpromoted_form(s.kind).unwrap_or(s.kind);
            m.hands[s.side][base as usize] = s.count;
            m.hands[1 - s.side] = [0, 1, 255, 3, 4, 128, 77, 2];
            m.hands[1 - s.side][0] = 0;
            m.side = s.side;
            let x = if s.drop {
                MMove::Drop { piece: piece(s.kind, s.side), to: 40 }
            } else {
                m.board[40] = piece(s.kind, 1 - s.side);
                m.board[31] = piece(s.mover, s.side);
                MMove::Normal { from: 31, to: 40, promote: false }
            };
            let p = build(&m);
            for s in SURFACES {
                one_move(p.clone(), &m, x, s, t)?;
            }
            Ok(())
        },
    );
    c.enumerate(
        "plies",
        "every ply 0..=65535 (0 is reached through 65535) x {quiet, capture, drop}; non-trivial: capture or drop",
        65536 * 3,
        3,
        |i| i,
        |&i: &u64, t| {
            let ply = (i / 3) as u16;
            let mut m = MPos::start();
            m.hands[0][7] = 1;
            m.hands[1][1] = 2;
            m.side = (mix(i) & 1) as usize;
            let mut p = PartialPosition::startpos();
            act_on_real(&mut p, Act::Hand(0, 7, 1));
            act_on_real(&mut p, Act::Hand(1, 1, 2));
            p.side_to_move_set(COLORS[m.side]);
            if ply == 0 {
                m.ply = 65535;
                ensure!(p.ply_set(65535), "ply_set(65535) refused");
                let x = if m.side == 0 { MMove::Normal { from: 6, to: 5, promote: false } } else { MMove::Normal { from: 2, to: 3, promote: false } };
                m.apply(x).unwrap();
                ensure!(p.make_move(mv(x)).is_some(), "opening move refused");
                observe(&p, &m)?;
            } else {
                m.ply = ply;
                ensure!(p.ply_set(ply), "ply_set({ply}) refused");
            }
            let s = m.side;
            let x = match i % 3 {
                0 => MMove::Normal { from: if s == 0 { at(7, 7) } else { at(7, 3) }, to: at(7, 5), promote: false },
                1 => MMove::Normal { from: if s == 0 { at(2, 8) } else { at(8, 2) }, to: if s == 0 { at(2, 3) } else { at(8, 7) }, promote: true },
                _ => MMove::Drop { piece: if s == 0 { piece(7, 0) } else { piece(1, 1) }, to: at(5, 5) },
            };
            one_move(p, &m, x, SURFACES[(mix(i) >> 20) as usize % 4], t)
        },
    );
    c.explore("histories", HIST_RULE, 60_000, 3_000_000, || hist(base().boxed(), MIXED, 1..60), |h: &Hist, t| lockstep(h, t, 1));
    c.explore("games", HIST_RULE, 1_500, 60_000, || hist(play_base().boxed(), MOVES, 100..500), |h: &Hist, t| lockstep(h, t, 1));
    c.enumerate("very-long-games", "games of more than 65,536 accepted moves (ply and move list pass 2^16); non-trivial: all", 10, 5, |i| i, |&i: &u64, t| very_long(i, t));
}
const HIST_RULE: &str = "base position and operations resolved against the model; non-trivial: at least one accepted capture, promotion or drop";

/// All four surfaces side by side with the model.
fn lockstep(h: &Hist, t: &mut Tally, every: usize) -> Check {
    let mut m = h.base.build();
    let mut p1 = build_base(&h.base, &m);
    observe(&p1, &m).map_err(|e| ctx_err(&m, "base", e))?;
    let mut p2 = p1.clone();
    let mut q1 = Position::arbitrary_position(p1.clone());
    let mut q2 = q1.clone();
    for (i, op) in h.ops.iter().enumerate() {
        let act = resolve(op, &m);
        match act {
            Act::Nop => {}
            Act::Mv(x) => {
                let before = m.clone();
                let exp = m.apply(x);
                classify(&before, x, &exp, t);
                let got = [p1.make_move(mv(x)).is_some(), p2.make_compact_move(cmv(x)), q1.make_move(mv(x)).is_some(), q2.make_compact_move(cmv(x))];
                for k in 0..4 {
                    ensure!(got[k] == exp.is_ok(), "{}", ctx_err(&before, x.usi(), format!("step {i}: {:?} {} the move, expected {:?}", SURFACES[k], if got[k] { "accepted" } else { "refused" }, exp)));
                }
                let obs = |m: &MPos| -> Check {
                    if i % every == 0 {
                        observe(&p1, m)?;
                        observe(&p2, m)?;
                        observe(&q1, m)?;
                        observe(&q2, m)?;
                    }
                    Ok(())
                };
                obs(&m).map_err(|e| ctx_err(&before, format!("step {i}: {}", x.usi()), e))?;
            }
            a => {
                act_on_model(&mut m, a);
                act_on_real(&mut p1, a);
                observe(&p1, &m).map_err(|e| ctx_err(&m, format!("step {i}: {a:?}"), e))?;
                p2 = p1.clone();
                q1 = Position::arbitrary_position(p2.clone());
                q2 = Position::arbitrary_position(p1.clone());
            }
        }
    }
    observe_sfen(&p1, &m)?;
    observe_sfen(&q2, &m)?;
    ensure!(p1 == p2 && *q1.inner() == p1 && *q2.inner() == p1, "the surfaces end in different positions");
    Ok(())
}

fn very_long(i: u64, t: &mut Tally) -> Check {
    very_long_game(i, t).map(|_| ())
}
fn very_long_game(i: u64, t: &mut Tally) -> Result<(MPos, Position), String> {
    let mut m = if i % 2 == 0 { MPos::start() } else { backgrounds()[(i as usize * 7) % 48].m.clone() };
    if i % 2 == 1 {
        m.board[40] = piece(KING, 0);
        m.board[41] = piece(7, 1);
        m.side = (i / 2 % 2) as usize;
    }
    let p = build(&m);
    let mut q1 = Position::arbitrary_position(p.clone());
    let mut q2 = Position::arbitrary_position(p.clone());
    let mut list = Vec::new();
    let mut k = 0u64;
    while list.len() < 66_000 && k < 400_000 {
        k += 1;
        let r = mix(i << 32 | k);
        let (a, b) = (r as u16, (r >> 16) as u16);
        let op = match (r >> 40) % 10 {
            0..=4 => Op::Move { a, b, p: r >> 50 & 1 == 1 },
            5 => Op::Capture { a, b, p: r >> 50 & 1 == 1 },
            6 | 7 => Op::Drop { a, b },
            8 => Op::Move { a, b, p: false },
            _ => Op::Near { k: (r >> 52) as u8, a, b },
        };
        if let Act::Mv(x) = resolve(&op, &m) {
            let before = m.clone();
            let exp = m.apply(x);
            classify(&before, x, &exp, t);
            let g1 = q1.make_move(mv(x)).is_some();
            let g2 = q2.make_compact_move(cmv(x));
            ensure!(g1 == exp.is_ok() && g2 == exp.is_ok(), "{}", ctx_err(&before, x.usi(), format!("move number {}: got {g1} and {g2}, expected {exp:?}", list.len())));
            if exp.is_ok() {
                list.push(x);
            }
            observe(&q1, &m).map_err(|e| ctx_err(&before, format!("move number {}: {}", list.len(), x.usi()), e))?;
            ensure_eq!(q1.moves().len(), list.len(), "number of recorded moves");
        }
    }
    t.nontrivial();
    observe(&q2, &m)?;
    for q in [&q1, &q2] {
        ensure!(q.moves().len() == list.len() && q.moves().iter().zip(&list).all(|(a, b)| *a == mv(*b)), "the recorded moves differ from the moves made");
    }
    ensure!(q1 == q2, "both forms end in different positions");
    // replay
    let mut p = p;
    for (n, x) in q1.moves().iter().enumerate() {
        ensure!(p.make_move(*x).is_some(), "replaying recorded move {n} is refused");
    }
    ensure!(p == *q1.inner(), "replaying the record gives another position");
    Ok((m, q1))
}

// ------------------------------------------------------------------------------------------------ C02

struct Snapshot {
    p: PartialPosition,
    hash: u64,
}
fn untouched(p: &PartialPosition, s: &Snapshot, m: &MPos) -> Check {
    observe(p, m)?;
    ensure!(*p == s.p, "the position no longer equals its former self");
    ensure!(!(*p != s.p), "!= says the position changed");
    ensure!(p.cmp(&s.p) == std::cmp::Ordering::Equal, "the position no longer compares equal to its former self");
    ensure!(hash_std(p) == s.hash, "the position's hash changed");
    Ok(())
}

pub fn c02(c: &mut Ctx) {
    c.enumerate("refusals-late-in-very-long-games", "games of more than 65,536 recorded moves with refused ones in between and after; non-trivial: all", 8, 8, |i| i, |&i: &u64, t| refusals_late(i, t));
    c.explore(
        "refusals-in-histories",
        "histories rich in refused moves (14 deliberate reasons and random ones), each tried on every surface and through a legality checker; compared with the same history without them; non-trivial: at least one refused and one accepted move",
        30_000,
        1_500_000,
        || hist(base().boxed(), REFUSE, 1..40),
        |h: &Hist, t| {
            let mut m = h.base.build();
            let mut p = build_base(&h.base, &m);
            let mut q = Position::arbitrary_position(p.clone());
            // the same without refused moves
            let mut p0 = p.clone();
            let mut q0 = q.clone();
            let (mut acc, mut refu) = (0, 0);
            for (i, op) in h.ops.iter().enumerate() {
                let act = resolve(op, &m);
                match act {
                    Act::Nop => {}
                    Act::Mv(x) => {
                        let before = m.clone();
                        let exp = m.apply(x);
                        classify(&before, x, &exp, t);
                        let wrap = |e: String| ctx_err(&before, format!("step {i}: {} ({exp:?})", x.usi()), e);
                        if exp.is_ok() {
                            acc += 1;
                            checker_refuses(&mut q, &before, x, mix(i as u64 ^ hash_of(&x.usi()))).map_err(wrap)?;
                            ensure!(p.make_move(mv(x)).is_some() && q.make_move(mv(x)).is_some() && p0.make_move(mv(x)).is_some() && q0.make_move(mv(x)).is_some(), "{}", wrap("refused".into()));
                            continue;
                        }
                        refu += 1;
                        refuse_everywhere(&mut p, &mut q, &m, x).map_err(wrap)?;
                    }
                    a => {
                        act_on_model(&mut m, a);
                        act_on_real(&mut p, a);
                        act_on_real(&mut p0, a);
                        q = Position::arbitrary_position(p.clone());
                        q0 = Position::arbitrary_position(p0.clone());
                    }
                }
            }
            ensure!(p == p0 && p.cmp(&p0) == std::cmp::Ordering::Equal && hash_std(&p) == hash_std(&p0) && p.to_sfen_owned() == p0.to_sfen_owned(), "with refused moves in between the position ends up different:\n  {p:?}\n  {p0:?}");
            ensure!(q == q0 && q.cmp(&q0) == std::cmp::Ordering::Equal && hash_std(&q) == hash_std(&q0) && q.moves() == q0.moves() && q.initial_position() == q0.initial_position(), "with refused moves in between the history ends up different:\n  {:?}\n  {:?}", q.moves(), q0.moves());
            if acc > 0 && refu > 0 {
                t.nontrivial();
            }
            Ok(())
        },
    );
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct AllMoves {
        h: Hist,
    }
    c.explore(
        "all-refused-moves",
        "in a generated position, every one of the 15,390 well-formed moves that the model refuses; non-trivial: position with pieces of both players",
        400,
        40_000,
        || hist(play_base().boxed(), MIXED, 0..20).prop_map(|h| AllMoves { h }),
        |a: &AllMoves, t| {
            let (m, p) = reach(&a.h)?;
            let q = Position::arbitrary_position(p.clone());
            let snap = Snapshot { hash: hash_std(&p), p: p.clone() };
            let (mut p, mut q) = (p, q);
            let q0 = q.clone();
            for n in 0..MMove::COUNT {
                let x = MMove::nth(n);
                let Err(r) = m.judge(x) else { continue };
                t.class(refusal_class(r));
                let ok = match n % 4 {
                    0 => p.make_move(mv(x)).is_some(),
                    1 => p.make_compact_move(cmv(x)),
                    2 => q.make_move(mv(x)).is_some(),
                    _ => q.make_compact_move(cmv(x)),
                };
                ensure!(!ok, "{}", ctx_err(&m, x.usi(), format!("accepted, expected {r:?}")));
                let same = if n % 4 < 2 { p == snap.p } else { q == q0 };
                ensure!(same, "{}", ctx_err(&m, x.usi(), format!("the refused move ({r:?}) changed the position")));
                if n % 8 < 4 {
                    if n % 4 < 2 {
                        untouched(&p, &snap, &m).map_err(|e| ctx_err(&m, x.usi(), e))?;
                    } else {
                        untouched(q.inner(), &snap, &m).map_err(|e| ctx_err(&m, x.usi(), e))?;
                        ensure!(q.moves().is_empty(), "a refused move was recorded");
                    }
                }
            }
            t.nontrivial();
            Ok(())
        },
    );
}

/// Refused moves during and after a game of more than 65,536 moves.
fn refusals_late(i: u64, t: &mut Tally) -> Check {
    let (m, mut q) = very_long_game(i + 200, t)?;
    let mut p = q.inner().clone();
    for k in 0..14u8 {
        let r = mix(i << 8 | k as u64);
        if let Act::Mv(x) = resolve(&Op::Near { k, a: r as u16, b: (r >> 16) as u16 }, &m) {
            if m.judge(x).is_err() {
                refuse_everywhere(&mut p, &mut q, &m, x).map_err(|e| ctx_err(&m, format!("after {} moves: {}", q.moves().len(), x.usi()), e))?;
            }
        }
    }
    Ok(())
}

/// Tries a refused move everywhere; nothing may change.
fn refuse_everywhere(p: &mut PartialPosition, q: &mut Position, m: &MPos, x: MMove) -> Check {
    let snap = Snapshot { hash: hash_std(p), p: p.clone() };
    ensure!(p.make_move(mv(x)).is_none(), "make_move accepted");
    untouched(p, &snap, m).map_err(|e| format!("after make_move: {e}"))?;
    ensure!(!p.make_compact_move(cmv(x)), "make_compact_move accepted");
    untouched(p, &snap, m).map_err(|e| format!("after make_compact_move: {e}"))?;
    let qs = q.clone();
    let qh = hash_std(q);
    let inner = Snapshot { hash: hash_std(q.inner()), p: q.inner().clone() };
    let moves = q.moves().to_vec();
    for form in 0..3 {
        match form {
            0 => ensure!(q.make_move(mv(x)).is_none(), "make_move with history accepted"),
            1 => ensure!(!q.make_compact_move(cmv(x)), "make_compact_move with history accepted"),
            _ => {
                // a checker that reports the move illegal, for two different reasons
                for status in [PositionStatus::InProgress, PositionStatus::Draw] {
                    let k = Mock::refusing(status, IllegalMoveKind::IncorrectMove);
                    let r = k.make_move(q, mv(x));
                    let exp = if status == PositionStatus::InProgress { IllegalMoveKind::IncorrectMove } else { IllegalMoveKind::GameFinished };
                    ensure_eq!(r, Err(exp), "make_move through a refusing checker");
                }
            }
        }
        let what = ["make_move", "make_compact_move", "checker"][form];
        untouched(q.inner(), &inner, m).map_err(|e| format!("after {what} with history: {e}"))?;
        ensure!(q.moves() == &moves[..], "after {what}: the recorded moves changed");
        ensure!(*q == qs && (*q).cmp(&qs) == std::cmp::Ordering::Equal && hash_std(q) == qh, "after {what}: the history no longer equals its former self");
        ensure!(q.initial_position() == qs.initial_position(), "after {what}: the initial position changed");
    }
    Ok(())
}

/// A move the position would accept, but which a legality checker refuses: nothing may change either.
fn checker_refuses(q: &mut Position, m: &MPos, x: MMove, r: u64) -> Check {
    let qs = q.clone();
    let qh = hash_std(q);
    let inner = Snapshot { hash: hash_std(q.inner()), p: q.inner().clone() };
    let ended = [PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::Invalid][(r >> 8) as usize % 4];
    let reason = ILLEGAL[(r >> 16) as usize % 7];
    for (status, exp) in [(ended, IllegalMoveKind::GameFinished), (PositionStatus::InProgress, reason)] {
        let got = Mock::refusing(status, reason).make_move(q, mv(x));
        ensure_eq!(got, Err(exp), "make_move through a checker that answers {reason:?} (status {status:?})");
        untouched(q.inner(), &inner, m).map_err(|e| format!("after a checker refused an applicable move ({exp:?}): {e}"))?;
        ensure!(q.moves() == qs.moves(), "after a checker refused an applicable move ({exp:?}): the recorded moves changed");
        ensure!(*q == qs && (*q).cmp(&qs) == std::cmp::Ordering::Equal && hash_std(q) == qh, "after a checker refused an applicable move ({exp:?}): the history no longer equals its former self");
        ensure!(q.initial_position() == qs.initial_position(), "after a checker refused an applicable move ({exp:?}): the initial position changed");
    }
    Ok(())
}

/// Runs a history on model and library without observing.
pub fn reach(h: &Hist) -> Result<(MPos, PartialPosition), String> {
    let mut m = h.base.build();
    let mut p = build_base(&h.base, &m);
    for op in &h.ops {
        match resolve(op, &m) {
            Act::Nop => {}
            Act::Mv(x) => {
                let r = m.apply(x);
                let g = p.make_move(mv(x));
                ensure!(g.is_some() == r.is_ok(), "{}", ctx_err(&m, x.usi(), format!("got {g:?}, expected {r:?}")));
            }
            a => {
                act_on_model(&mut m, a);
                act_on_real(&mut p, a);
            }
        }
    }
    Ok((m, p))
}

// ------------------------------------------------------------------------------------------------ C03

/// Consistency of the views among themselves, through `contains`, `count` and iteration; no model involved.
pub fn views_agree(v: &impl View) -> Check {
    let mut occ = 0u32;
    let mut per_kind = [0u8; 15];
    let mut per_player = [0u8; 2];
    for s in 0..81u8 {
        let q = sq(s);
        let p = v.v_at(q);
        let name = usi_square(s);
        ensure!(v.v_occ().contains(q) == p.is_some(), "occupied set and piece_at({name}) = {p:?} disagree");
        ensure!(v.v_vac().contains(q) == p.is_none(), "vacant set and piece_at({name}) = {p:?} disagree");
        for c in COLORS {
            ensure!(v.v_player(c).contains(q) == (p.map(|p| p.color()) == Some(c)), "set of {c:?} and piece_at({name}) = {p:?} disagree");
        }
        for k in KINDS {
            ensure!(v.v_kind(k).contains(q) == (p.map(|p| p.piece_kind()) == Some(k)), "set of {k:?} and piece_at({name}) = {p:?} disagree");
            for c in COLORS {
                let x = Piece::new(k, c);
                ensure!(v.v_piece(x).contains(q) == (p == Some(x)), "set of {x:?} and piece_at({name}) = {p:?} disagree");
            }
        }
        if let Some(p) = p {
            occ += 1;
            per_kind[p.piece_kind() as usize] += 1;
            per_player[p.color().array_index()] += 1;
        }
    }
    ensure_eq!(v.v_occ().count() as u32, occ, "size of the occupied set");
    ensure_eq!(v.v_vac().count() as u32, 81 - occ, "size of the vacant set");
    for c in 0..2 {
        ensure_eq!(v.v_player(COLORS[c]).count(), per_player[c], "size of the set of {:?}", COLORS[c]);
    }
    for k in KINDS {
        ensure_eq!(v.v_kind(k).count(), per_kind[k as usize], "size of the set of {k:?}");
    }
    ensure!(v.v_vac() == !v.v_occ(), "the vacant set is not the complement of the occupied set");
    ensure!((v.v_player(Color::Black) & v.v_player(Color::White)).is_empty(), "both players have a piece on one square");
    Ok(())
}

pub fn c03(c: &mut Ctx) {
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Replace {
        old: u8,
        new: u8,
        sq: u8,
        bg: usize,
    }
    c.enumerate(
        "replacements",
        "every (square, old content, new content): placing, replacing and removing on a hashed background; non-trivial: contents differ",
        81 * 29 * 29,
        1,
        |i| {
            let p = |n: u64| if n == 28 { NONE } else { nth_piece(n as usize) };
            Replace { sq: (i % 81) as u8, old: p(i / 81 % 29), new: p(i / 81 / 29), bg: (mix(i) % 48) as usize }
        },
        |r: &Replace, t| {
            let b = &backgrounds()[r.bg % 48];
            let (mut m, mut p) = (b.m.clone(), b.p.clone());
            for x in [r.old, r.new] {
                m.board[r.sq as usize] = x;
                p.piece_set(sq(r.sq), opc(x));
                observe_board(&p, &m).map_err(|e| ctx_err(&m, format!("piece_set({}, {x})", usi_square(r.sq)), e))?;
            }
            let mut q = Position::arbitrary_position(b.p.clone());
            #[allow(deprecated)]
            {
                q.piece_set(sq(r.sq), opc(r.old));
                q.piece_set(sq(r.sq), opc(r.new));
            }
            observe_board(&q, &m).map_err(|e| format!("with history: {e}"))?;
            if r.old != r.new {
                t.nontrivial();
            }
            Ok(())
        },
    );
    let check = |h: &Hist, t: &mut Tally| -> Check {
        let mut m = h.base.build();
        let mut p = build_base(&h.base, &m);
        let mut q = Position::arbitrary_position(p.clone());
        let mut edits = 0;
        let mut moves = 0;
        for (i, op) in h.ops.iter().enumerate() {
            let act = resolve(op, &m);
            let before = m.clone();
            match act {
                Act::Nop => continue,
                Act::Mv(x) => {
                    let r = m.apply(x);
                    classify(&before, x, &r, t);
                    if r.is_ok() {
                        moves += 1;
                    }
                    let _ = p.make_move(mv(x));
                    let _ = q.make_compact_move(cmv(x));
                }
                a => {
                    if let Act::Set(s, x) = a {
                        t.class(match (m.board[s as usize] != NONE, x != NONE) {
                            (false, true) => "placed",
                            (true, true) => "replaced",
                            (true, false) => "removed",
                            _ => "cleared a vacant square",
                        });
                        #[allow(deprecated)]
                        q.piece_set(sq(s), opc(x));
                        edits += 1;
                    } else {
                        // keep the two in step
                        let mut tmp = p.clone();
                        act_on_real(&mut tmp, a);
                        q = Position::arbitrary_position(tmp);
                    }
                    act_on_model(&mut m, a);
                    act_on_real(&mut p, a);
                }
            }
            let wrap = |e: String| ctx_err(&before, format!("step {i}: {act:?}"), e);
            observe_board(&p, &m).map_err(wrap)?;
            observe_board(&q, &m).map_err(|e| wrap(format!("with history: {e}")))?;
            if i % 16 == 3 {
                views_agree(&p).map_err(wrap)?;
                views_agree(&q).map_err(wrap)?;
            }
        }
        views_agree(&p)?;
        views_agree(&q)?;
        c_accessors(&p, &m)?;
        c_accessors_pos(&q, &m)?;
        if edits > 0 && moves > 0 {
            t.nontrivial();
        }
        Ok(())
    };
    c.explore("edit-move-histories", "histories of edits and moves; non-trivial: both an edit and an accepted move", 40_000, 2_000_000, || hist(base().boxed(), EDITS, 1..50), check);
    c.explore("games", "move histories; non-trivial: none (moves only)", 1_500, 60_000, || hist(play_base().boxed(), MOVES, 50..300), check);
    c.enumerate("initial", "views of the library's own starting and empty positions", 2, 1, |i| i, |&i: &u64, t| {
        let (p, m) = if i == 0 { (PartialPosition::startpos(), MPos::start()) } else { (PartialPosition::empty(), MPos::empty()) };
        observe_board(&p, &m)?;
        views_agree(&p)?;
        observe_board(&Position::arbitrary_position(p), &m)?;
        if i == 0 {
            observe_board(&Position::startpos(), &m)?;
            observe_board(&PartialPosition::default(), &m)?;
            observe_board(&Position::default(), &m)?;
        }
        t.nontrivial();
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C04

pub fn c04(c: &mut Ctx) {
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct KingStep {
        color: usize,
        from: u8,
        to: u8,
        how: u8,
    }
    c.enumerate(
        "king-steps",
        "every (colour, square, square, way): place, move by edit, move by move, remove, overwrite by each piece, other king nearby; non-trivial: squares differ",
        2 * 81 * 81 * 6,
        2,
        |i| KingStep { how: (i % 6) as u8, color: (i / 6 % 2) as usize, from: (i / 12 % 81) as u8, to: (i / 12 / 81) as u8 },
        |k: &KingStep, t| {
            let me = piece(KING, k.color);
            let bg = &backgrounds()[(k.from as usize * 3 + k.to as usize) % 48];
            let mut m = if k.how % 2 == 0 { MPos::empty() } else { bg.m.clone() };
            let mut p = build(&m);
            let step = |m: &mut MPos, p: &mut PartialPosition, s: u8, x: u8| -> Check {
                m.board[s as usize] = x;
                p.piece_set(sq(s), opc(x));
                observe_kings(p, m).map_err(|e| ctx_err(m, format!("piece_set({}, {x})", usi_square(s)), e))
            };
            // only one king of this colour
            for s in 0..81u8 {
                if m.board[s as usize] == me {
                    step(&mut m, &mut p, s, NONE)?;
                }
            }
            step(&mut m, &mut p, k.from, me)?;
            if k.from != k.to {
                t.nontrivial();
            }
            match k.how {
                0 | 1 => {
                    if m.board[k.to as usize] == NONE || k.how == 0 {
                        m.side = k.color;
                        p.side_to_move_set(COLORS[k.color]);
                        if k.how == 0 && k.from != k.to {
                            step(&mut m, &mut p, k.to, piece(5, 1 - k.color))?;
                        }
                        let x = MMove::Normal { from: k.from, to: k.to, promote: false };
                        let r = m.apply(x);
                        let g = p.make_move(mv(x));
                        ensure!(g.is_some() == r.is_ok(), "king move: {g:?}, expected {r:?}");
                        observe_kings(&p, &m).map_err(|e| ctx_err(&m, x.usi(), e))?;
                    }
                }
                2 => {
                    step(&mut m, &mut p, k.from, NONE)?;
                    step(&mut m, &mut p, k.to, me)?;
                }
                3 => {
                    step(&mut m, &mut p, k.to, me)?;
                    step(&mut m, &mut p, k.from, NONE)?;
                }
                4 => {
                    step(&mut m, &mut p, k.to, piece(KING, 1 - k.color))?;
                    step(&mut m, &mut p, k.to, nth_piece((k.from as usize + k.to as usize) % 28))?;
                }
                _ => {
                    step(&mut m, &mut p, k.from, nth_piece((k.from as usize * 7 + k.to as usize) % 28))?;
                    step(&mut m, &mut p, k.to, me)?;
                    step(&mut m, &mut p, k.to, piece(9, k.color))?;
                }
            }
            Ok(())
        },
    );
    c.explore(
        "king-histories",
        "king-heavy histories of edits and moves, then the same board built along another path; non-trivial: a king was moved, removed or overwritten",
        60_000,
        3_000_000,
        || (hist(base().boxed(), KINGS, 1..50), any::<u64>()),
        |(h, salt): &(Hist, u64), t| {
            let mut m = h.base.build();
            let mut p = build_base(&h.base, &m);
            let mut changed = false;
            observe_kings(&p, &m)?;
            for (i, op) in h.ops.iter().enumerate() {
                let before = m.clone();
                let act = resolve(op, &m);
                match act {
                    Act::Nop => continue,
                    Act::Mv(x) => {
                        let _ = m.apply(x);
                        let _ = p.make_move(mv(x));
                        if m != before {
                            if let MMove::Normal { from, .. } = x {
                                if kind_of(before.board[from as usize]) == KING {
                                    t.class("king moved");
                                    changed = true;
                                }
                            }
                        }
                    }
                    a => {
                        if let Act::Set(s, x) = a {
                            if kind_of(m.board[s as usize]) == KING {
                                t.class(if x == NONE { "king removed" } else { "king overwritten" });
                                changed = true;
                            }
                        }
                        act_on_model(&mut m, a);
                        act_on_real(&mut p, a);
                    }
                }
                observe_kings(&p, &m).map_err(|e| ctx_err(&before, format!("step {i}: {act:?}"), e))?;
            }
            if changed {
                t.nontrivial();
            }
            // another path to the same board
            let q = build_shuffled(&m, *salt);
            observe_kings(&q, &m).map_err(|e| format!("rebuilt along another path: {e}"))?;
            for c in COLORS {
                ensure_eq!(q.king_position(c).map(|s| s.to_usi_owned()), p.king_position(c).map(|s| s.to_usi_owned()), "{c:?} king of the same board built along another path ({})", m.sfen());
            }
            let w = Position::arbitrary_position(p);
            observe_kings(&w, &m)
        },
    );
}

/// The same position built in another order, with detours (squares filled and cleared or overwritten on the way).
pub fn build_shuffled(m: &MPos, salt: u64) -> PartialPosition {
    let mut p = if salt & 1 == 0 { PartialPosition::empty() } else { PartialPosition::startpos() };
    shuffle_into(&mut p, m, salt);
    p
}
/// Edits `p` until it is `m`, but for the last move.
pub fn shuffle_into(p: &mut PartialPosition, m: &MPos, salt: u64) {
    let mut order: Vec<u8> = (0..81).collect();
    for i in (1..81usize).rev() {
        order.swap(i, (mix(salt.wrapping_add(i as u64)) % (i as u64 + 1)) as usize);
    }
    // detours first
    for k in 0..(salt >> 1 & 15) {
        let r = mix(salt ^ (k << 40));
        let what = if r >> 20 & 3 == 0 { piece(KING, (r >> 22 & 1) as usize) } else { nth_piece((r >> 8) as usize % 28) };
        p.piece_set(sq((r % 81) as u8), opc(what));
    }
    for &s in &order {
        let r = mix(salt ^ s as u64 ^ 0x5555);
        if r % 8 == 0 {
            p.piece_set(sq(s), opc(nth_piece((r >> 8) as usize % 28)));
        }
        if r % 16 == 1 {
            p.piece_set(sq(s), None);
        }
        p.piece_set(sq(s), opc(m.board[s as usize]));
    }
    for c in 0..2 {
        set_hand(p.hand_of_a_player_mut(COLORS[c]), &m.hands[c]);
    }
    p.side_to_move_set(COLORS[m.side]);
    if m.ply != 0 {
        let _ = p.ply_set(m.ply);
    }
}

// ------------------------------------------------------------------------------------------------ C05

pub fn c05(c: &mut Ctx) {
    #[derive(Clone, Debug, Hash, Serialize, Deserialize)]
    struct Hh {
        /// How the initial position comes about (played on a position without history).
        pre: Hist,
        ops: Vec<Op>,
        forms: u64,
        clone_at: usize,
    }
    let strat = |lo: usize, hi: usize| (hist(play_base().boxed(), MIXED, 0..8), prop::collection::vec(op(MOVES), lo..hi), any::<u64>(), 0usize..hi).prop_map(|(pre, ops, forms, clone_at)| Hh { pre, ops, forms, clone_at });
    let check = |h: &Hh, t: &mut Tally| -> Check {
        let (m0, p0) = reach(&h.pre)?;
        let mut m = m0.clone();
        let mut q = Position::arbitrary_position(p0.clone());
        ensure!(q.moves().is_empty(), "a new position with history has moves");
        observe(&q, &m)?;
        let mut list: Vec<MMove> = vec![];
        let mut snapshot: Option<(Position, MPos, usize)> = None;
        let mut other: Option<(Position, MPos, Vec<MMove>)> = None;
        for (i, op) in h.ops.iter().enumerate() {
            if i == h.clone_at {
                snapshot = Some((q.clone(), m.clone(), list.len()));
                // over a position that has something else in it
                let mut o = Position::startpos();
                for k in 0..h.forms % 7 {
                    let _ = o.make_move(mv(MMove::Normal { from: 9 * k as u8 + 6 - 4 * (k % 2) as u8, to: 9 * k as u8 + 5 - 2 * (k % 2) as u8, promote: false }));
                }
                if h.forms >> 8 & 1 == 1 {
                    o.clone_from(&q);
                } else {
                    o = q.clone();
                }
                other = Some((o, m.clone(), list.clone()));
            }
            let Act::Mv(x) = resolve(op, &m) else { continue };
            let before = m.clone();
            let r = m.apply(x);
            classify(&before, x, &r, t);
            let wrap = |e: String| ctx_err(&before, format!("step {i}: {}", x.usi()), e);
            let compact = h.forms >> (i % 64) & 1 == 1;
            let g = if compact { q.make_compact_move(cmv(x)) } else { q.make_move(mv(x)).is_some() };
            ensure!(g == r.is_ok(), "{}", wrap(format!("got {g}, expected {r:?}")));
            if r.is_ok() {
                list.push(x);
            }
            if let Some((o, om, ol)) = other.as_mut() {
                // the clone goes its own way
                if i % 3 == 0 {
                    if let Act::Mv(y) = resolve(op, om) {
                        let exp = om.apply(y);
                        let got = o.make_move(mv(y));
                        ensure!(got.is_some() == exp.is_ok(), "{}", wrap(format!("the clone, which stands at {}, answers {got:?} to {}, expected {exp:?}", om.sfen(), y.usi())));
                        if exp.is_ok() {
                            ol.push(y);
                        }
                    }
                }
            }
            ensure_eq!(q.moves().len(), list.len(), "{}", wrap("number of recorded moves".into()));
            ensure_eq!(q.moves().last().copied(), list.last().copied().map(mv), "{}", wrap("last recorded move".into()));
            observe(&q, &m).map_err(wrap)?;
            if i % 8 == 0 {
                observe(q.initial_position(), &m0).map_err(|e| wrap(format!("initial position: {e}")))?;
                observe(q.inner(), &m).map_err(|e| wrap(format!("inner position: {e}")))?;
            }
        }
        // the record
        ensure!(q.moves().len() == list.len(), "number of recorded moves");
        for (i, x) in list.iter().enumerate() {
            ensure_eq!(q.moves()[i], mv(*x), "recorded move {i}");
        }
        observe(q.initial_position(), &m0).map_err(|e| format!("initial position: {e}"))?;
        ensure!(*q.initial_position() == p0, "the initial position is not the one given");
        let mut r = q.initial_position().clone();
        for (i, x) in q.moves().iter().enumerate() {
            ensure!(r.make_move(*x).is_some(), "replaying recorded move {i} ({}) is refused", x.to_usi_owned());
        }
        ensure!(r == *q.inner(), "replaying the record gives\n  {r:?}\nbut the current position is\n  {:?}", q.inner());
        let mut r2 = Position::arbitrary_position(q.initial_position().clone());
        for x in q.moves() {
            let _ = r2.make_compact_move((*x).into());
        }
        ensure!(r2 == q, "a position with history rebuilt from the record is not equal to the original");
        // delegation, compared directly
        observe_sfen(&q, &m)?;
        ensure!(q.to_sfen_owned() == q.inner().to_sfen_owned(), "SFEN with and without history differ");
        ensure!(q.last_move() == q.inner().last_move() && q.last_compact_move() == q.inner().last_compact_move(), "last move with and without history differ");
        c_accessors_pos(&q, &m)?;
        if let Some((s, ms, n)) = snapshot {
            observe(&s, &ms).map_err(|e| format!("a clone changed with its original: {e}"))?;
            ensure!(s.moves().len() == n && s.moves() == &q.moves()[..n], "the moves of a clone changed with its original");
            observe(s.initial_position(), &m0).map_err(|e| format!("a clone's initial position: {e}"))?;
        }
        if let Some((o, om, ol)) = other {
            observe(&o, &om).map_err(|e| format!("a clone that was played on: {e}"))?;
            ensure!(o.moves().len() == ol.len() && o.moves().iter().zip(&ol).all(|(a, b)| *a == mv(*b)), "the moves of a clone that was played on are {:?}, expected {ol:?}", o.moves());
            observe(o.initial_position(), &m0).map_err(|e| format!("the initial position of a clone that was played on: {e}"))?;
            let mut p = p0.clone();
            p.clone_from(o.inner());
            observe(&p, &om).map_err(|e| format!("clone_from without history: {e}"))?;
        }
        if list.len() >= 2 {
            t.nontrivial();
        }
        Ok(())
    };
    c.explore("histories", "initial position reached by edits and moves, then moves in random forms, with a clone taken on the way; non-trivial: at least two recorded moves", 30_000, 1_500_000, || strat(0, 40), check);
    c.explore("long-histories", "as above, 100 to 600 operations", 1_200, 40_000, || strat(100, 600), check);
    c.enumerate("very-long-histories", "more than 65,536 recorded moves, replayed", 6, 6, |i| i, |&i: &u64, t| very_long(i + 100, t));
    c.enumerate("constructors", "starting position with history by every constructor", 1, 1, |i| i, |_: &u64, t| {
        t.nontrivial();
        let a = Position::startpos();
        let b = Position::arbitrary_position(PartialPosition::startpos());
        let d = Position::default();
        ensure!(a == b && a == d && a.cmp(&b) == std::cmp::Ordering::Equal && hash_std(&a) == hash_std(&b), "constructors of the starting position disagree");
        for q in [&a, &b, &d] {
            observe(q, &MPos::start())?;
            observe(q.initial_position(), &MPos::start())?;
            observe(q.inner(), &MPos::start())?;
            ensure!(q.moves().is_empty(), "moves at the start");
            ensure_eq!(q.to_sfen_owned(), STARTPOS_SFEN, "SFEN");
        }
        let p = Position::Position_startpos();
        ensure!(!p.is_null(), "Position_startpos returned null");
        let r = unsafe { *p == a };
        unsafe { Position::Position_destruct(p) };
        ensure!(r, "the C-style constructor disagrees");
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C06

fn totals_of(v: &impl View) -> Result<([u32; 9], [u32; 2]), String> {
    let mut t = [0u32; 9];
    for k in 1..=14u8 {
        t[unpromoted_form(k).unwrap_or(k) as usize] += v.v_kind(kind(k)).count() as u32;
    }
    let h = hands_of(v)?;
    for k in 1..=7 {
        t[k] += h[0][k] as u32 + h[1][k] as u32;
    }
    Ok((t, [v.v_piece(pc(piece(KING, 0))).count() as u32, v.v_piece(pc(piece(KING, 1))).count() as u32]))
}
fn totals_squares(v: &impl View) -> Result<[u32; 9], String> {
    let mut t = [0u32; 9];
    for s in 0..81u8 {
        if let Some(p) = v.v_at(sq(s)) {
            let k = p.piece_kind();
            let k = k.unpromote().unwrap_or(k);
            t[k as usize] += 1;
        }
    }
    let h = hands_of(v)?;
    for k in 1..=7 {
        t[k] += h[0][k] as u32 + h[1][k] as u32;
    }
    Ok(t)
}
pub fn c06(c: &mut Ctx) {
    let check = |h: &Hist, t: &mut Tally| -> Check {
        let mut m = h.base.build();
        let p = build_base(&h.base, &m);
        let mut q = Position::arbitrary_position(p.clone());
        let mut p = p;
        let (start, kings) = totals_of(&q)?;
        ensure_eq!(start, totals_squares(&q)?, "totals by sets and by squares");
        if h.base.is_standard() {
            ensure_eq!(start, [0, 18, 4, 4, 4, 4, 2, 2, 2], "totals of a standard set");
        }
        let mut n = 0;
        for (i, op) in h.ops.iter().enumerate() {
            let Act::Mv(x) = resolve(op, &m) else { continue };
            let before = m.clone();
            let r = m.apply(x);
            classify(&before, x, &r, t);
            let _ = q.make_compact_move(cmv(x));
            let _ = p.make_move(mv(x));
            if r.is_ok() {
                n += 1;
            }
            let wrap = |e: String| ctx_err(&before, format!("step {i}: {}", x.usi()), e);
            let (now, k) = totals_of(&q).map_err(wrap)?;
            let by_sq = totals_squares(&q).map_err(wrap)?;
            let (now_p, kp) = totals_of(&p).map_err(wrap)?;
            // a hand count may wrap from 255 to 0 on the way
            for j in 1..=8 {
                ensure!(now[j] % 256 == start[j] % 256 && by_sq[j] % 256 == start[j] % 256 && now_p[j] % 256 == start[j] % 256, "{}", wrap(format!("total of {} was {}, now {} (by squares {}, without history {})", usi_kind(j as u8), start[j], now[j], by_sq[j], now_p[j])));
            }
            if h.base.is_standard() {
                ensure!(now == start && by_sq == start && now_p == start, "{}", wrap("totals of a standard set changed".into()));
            }
            ensure!(k == kings && kp == kings, "{}", wrap(format!("kings {kings:?} became {k:?} / {kp:?}")));
        }
        if n >= 2 {
            t.nontrivial();
        }
        Ok(())
    };
    c.explore("standard-games", "games from standard 40-piece placements, refused moves included; totals by sets, by squares; non-trivial: an accepted capture, promotion or drop", 20_000, 1_000_000, || hist(prop_oneof![Just(Base::Start), std_base(), std_base()].boxed(), MOVES, 5..120), check);
    c.explore("free-games", "games from free positions (any counts, many kings)", 30_000, 1_500_000, || hist(free_base().boxed(), MOVES, 1..60), check);
    c.explore("long-games", "games of several hundred operations", 400, 20_000, || hist(prop_oneof![Just(Base::Start), std_base()].boxed(), Weights { mv: 10, cap: 14, drop: 12, ..MOVES }, 300..900), check);
    // exhaustive single captures and drops, conservation from the library's own views
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct One {
        side: usize,
        mover: u8,
        captured: u8,
        promote: bool,
        bg: usize,
        from: u8,
        to: u8,
    }
    c.enumerate(
        "single-captures",
        "every (side, mover kind, promote, captured kind or none) x 24 hashed square pairs and backgrounds; non-trivial: accepted capture",
        2 * 14 * 2 * 15 * 24,
        1,
        |i| {
            let h = mix(i);
            let j = i / 24;
            let from = (h % 81) as u8;
            One { side: (j % 2) as usize, promote: j / 2 % 2 == 1, mover: 1 + (j / 4 % 14) as u8, captured: (j / 56) as u8, bg: (h >> 20) as usize % 48, from, to: ((from as u64 + 1 + (h >> 30) % 80) % 81) as u8 }
        },
        |o: &One, t| {
            let b = &backgrounds()[o.bg % 48];
            let mut m = b.m.clone();
            m.side = o.side;
            m.board[o.from as usize] = piece(o.mover, o.side);
            m.board[o.to as usize] = if o.captured == 0 { NONE } else { piece(o.captured, 1 - o.side) };
            let mut p = build(&m);
            let (start, kings) = totals_of(&p)?;
            let x = MMove::Normal { from: o.from, to: o.to, promote: o.promote };
            let r = m.clone().apply(x);
            classify(&m, x, &r, t);
            let _ = p.make_move(mv(x));
            let (now, k) = totals_of(&p)?;
            let by_sq = totals_squares(&p)?;
            for j in 1..=8 {
                ensure!(now[j] % 256 == start[j] % 256 && by_sq[j] % 256 == start[j] % 256, "{}", ctx_err(&m, x.usi(), format!("total of {} was {}, now {} (by squares {})", usi_kind(j as u8), start[j], now[j], by_sq[j])));
            }
            ensure!(k == kings, "{}", ctx_err(&m, x.usi(), format!("kings {kings:?} became {k:?}")));
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C25

fn mirror_images(a: &PartialPosition, b: &PartialPosition) -> Check {
    ensure!(a.side_to_move() == b.side_to_move().flip(), "sides to move are not opposite");
    ensure_eq!(a.ply(), b.ply(), "plies of mirror images");
    for s in 0..81u8 {
        let x = a.piece_at(sq(s));
        let y = b.piece_at(sq(s).flip());
        ensure!(x.map(|p| (p.piece_kind(), p.color())) == y.map(|p| (p.piece_kind(), p.color().flip())), "piece_at({}) = {x:?}, mirrored {y:?}", usi_square(s));
    }
    for c in COLORS {
        ensure_eq!(a.hand_of_a_player(c), b.hand_of_a_player(c.flip()), "hand of {c:?}");
        ensure_eq!(a.king_position(c), b.king_position(c.flip()).map(|s| s.flip()), "king of {c:?} and its mirror image");
        ensure_eq!(a.player_bitboard(c), b.player_bitboard(c.flip()).flip(), "set of {c:?} and its mirror image");
        for k in KINDS {
            ensure_eq!(a.piece_bitboard(Piece::new(k, c)), b.piece_bitboard(Piece::new(k, c.flip())).flip(), "set of {k:?} {c:?} and its mirror image");
        }
    }
    for k in KINDS {
        ensure_eq!(a.piece_kind_bitboard(k), b.piece_kind_bitboard(k).flip(), "set of {k:?} and its mirror image");
    }
    ensure_eq!(a.occupied_bitboard(), b.occupied_bitboard().flip(), "occupied set and its mirror image");
    ensure_eq!(a.vacant_bitboard(), b.vacant_bitboard().flip(), "vacant set and its mirror image");
    let flip = |m: Move| match m {
        Move::Normal { from, to, promote } => Move::Normal { from: from.flip(), to: to.flip(), promote },
        Move::Drop { piece, to } => Move::Drop { piece: Piece::new(piece.piece_kind(), piece.color().flip()), to: to.flip() },
    };
    ensure_eq!(a.last_move(), b.last_move().map(flip), "last move and its mirror image");
    Ok(())
}
/// With several kings of one colour the reported one need not be the mirror image; compare only unique ones.
fn at_most_one_king(m: &MPos) -> bool {
    m.kings(0).len() <= 1 && m.kings(1).len() <= 1
}
pub fn c25(c: &mut Ctx) {
    let check = |h: &Hist, t: &mut Tally| -> Check {
        let mut m = h.base.build();
        // one king per player at most
        for c in 0..2 {
            for s in m.kings(c).into_iter().skip(1) {
                m.board[s as usize] = NONE;
            }
        }
        let mut w = m.mirrored();
        let mut a = build(&m);
        let mut b = build(&w);
        mirror_images(&a, &b).map_err(|e| ctx_err(&m, "base", e))?;
        let mut qa = Position::arbitrary_position(a.clone());
        let mut qb = Position::arbitrary_position(b.clone());
        for (i, op) in h.ops.iter().enumerate() {
            let act = resolve(op, &m);
            let before = m.clone();
            let wrap = |e: String| ctx_err(&before, format!("step {i}: {act:?}"), e);
            match act {
                Act::Nop => continue,
                Act::Mv(x) => {
                    let r = m.apply(x);
                    classify(&before, x, &r, t);
                    let _ = w.apply(x.mirrored());
                    let y = x.mirrored();
                    let (ga, gb) = (a.make_move(mv(x)).is_some(), b.make_move(mv(y)).is_some());
                    ensure!(ga == gb, "{}", wrap(format!("accepted: {ga}; its mirror image: {gb}")));
                    let (ga, gb) = (qa.make_compact_move(cmv(x)), qb.make_move(mv(y)).is_some());
                    ensure!(ga == gb, "{}", wrap(format!("with history accepted: {ga}; its mirror image: {gb}")));
                }
                Act::Set(s, p) => {
                    if kind_of(p) == KING && !m.kings(color_of(p)).is_empty() {
                        continue;
                    }
                    let q = if p == NONE { NONE } else { p ^ 16 };
                    m.board[s as usize] = p;
                    w.board[flip_sq(s) as usize] = q;
                    a.piece_set(sq(s), opc(p));
                    b.piece_set(sq(flip_sq(s)), opc(q));
                    qa = Position::arbitrary_position(a.clone());
                    qb = Position::arbitrary_position(b.clone());
                }
                Act::Side(s) => {
                    m.side = s;
                    w.side = 1 - s;
                    a.side_to_move_set(COLORS[s]);
                    b.side_to_move_set(COLORS[1 - s]);
                    qa = Position::arbitrary_position(a.clone());
                    qb = Position::arbitrary_position(b.clone());
                }
                Act::Hand(..) | Act::Ply(_) => continue,
            }
            if at_most_one_king(&m) {
                mirror_images(&a, &b).map_err(wrap)?;
                mirror_images(qa.inner(), qb.inner()).map_err(|e| wrap(format!("with history: {e}")))?;
            }
        }
        Ok(())
    };
    c.explore("mirrored-histories", "a history and its mirror image side by side; non-trivial: an accepted capture, promotion or drop", 30_000, 1_500_000, || hist(base().boxed(), MIXED, 1..40), check);
    c.explore("mirrored-games", "whole games and their mirror images", 1_500, 60_000, || hist(play_base().boxed(), MOVES, 60..300), check);
    c.enumerate("mirrored-moves", "every well-formed move on 16 backgrounds, against its mirror image; non-trivial: accepted capture, promotion or drop", MMove::COUNT * 16, 5, |i| i, |&i: &u64, t| {
        let b = &backgrounds()[(i / MMove::COUNT) as usize * 3 % 48];
        let mut m = b.m.clone();
        for c in 0..2 {
            for s in m.kings(c).into_iter().skip(1) {
                m.board[s as usize] = NONE;
            }
        }
        m.side = (mix(i) & 1) as usize;
        let x = MMove::nth(i);
        if mix(i) & 2 == 0 {
            // make the move more often possible
            if let MMove::Normal { from, .. } = x {
                if m.board[from as usize] != NONE {
                    m.side = color_of(m.board[from as usize]);
                }
            }
        }
        let mut p = build(&m);
        let mut q = build(&m.mirrored());
        let r = m.clone().apply(x);
        classify(&m, x, &r, t);
        let (ga, gb) = (p.make_move(mv(x)).is_some(), q.make_move(mv(x.mirrored())).is_some());
        ensure!(ga == gb, "{}", ctx_err(&m, x.usi(), format!("accepted: {ga}; its mirror image: {gb}")));
        mirror_images(&p, &q).map_err(|e| ctx_err(&m, x.usi(), e))
    });
    c.enumerate("start", "the starting position is its own mirror image but for the side to move", 1, 1, |i| i, |_: &u64, t| {
        t.nontrivial();
        let a = PartialPosition::startpos();
        let mut b = PartialPosition::startpos();
        b.side_to_move_set(Color::White);
        mirror_images(&a, &b)
    });
}
