//! C23 (legality checkers) and C24 (game records).
use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::position::reach;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use shogi_core::c_compat::*;
use shogi_core::*;

pub const STATUSES: [PositionStatus; 5] = [PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::InProgress, PositionStatus::Invalid];
pub const ILLEGAL: [IllegalMoveKind; 7] = [
    IllegalMoveKind::TwoPawns,
    IllegalMoveKind::IgnoredCheck,
    IllegalMoveKind::DropPawnMate,
    IllegalMoveKind::DropStuck,
    IllegalMoveKind::NormalStuck,
    IllegalMoveKind::GameFinished,
    IllegalMoveKind::IncorrectMove,
];

#[derive(Clone, Copy, Debug)]
pub enum Answers {
    Refuse(IllegalMoveKind),
    /// Impossible moves are incorrect; of the others some are legal, some illegal for various reasons.
    Hashed(u64),
    /// Everything that can be applied at all is legal.
    Lenient,
}
/// A checker whose answers are functions of the position and the move it is given.
#[derive(Clone, Copy, Debug)]
pub struct Mock {
    pub status: PositionStatus,
    pub partial: PositionStatus,
    pub answers: Answers,
}
impl Mock {
    pub fn refusing(status: PositionStatus, kind: IllegalMoveKind) -> Mock {
        Mock { status, partial: PositionStatus::InProgress, answers: Answers::Refuse(kind) }
    }
    pub fn answer(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
        if let Answers::Refuse(k) = self.answers {
            return Err(k);
        }
        if p.clone().make_move(m).is_none() {
            return Err(IllegalMoveKind::IncorrectMove);
        }
        match self.answers {
            Answers::Hashed(salt) => {
                let h = mix(salt ^ hash_of(&p.to_sfen_owned()) ^ hash_of(&m.to_usi_owned()) ^ hash_of(&p.last_move().map(|x| x.to_usi_owned())));
                if h % 3 != 0 {
                    Ok(())
                } else {
                    Err(ILLEGAL[(h >> 8) as usize % 7])
                }
            }
            _ => Ok(()),
        }
    }
    pub fn list(&self, p: &PartialPosition) -> Vec<Move> {
        // a shuffled sample of the accepted moves, in an order of its own
        let mut v = Vec::new();
        let salt = hash_of(&p.to_sfen_owned());
        for i in 0..60u64 {
            let n = mix(salt ^ i) % MMove::COUNT;
            let m = mv(MMove::nth(n));
            if self.answer(p, m).is_ok() {
                v.push(m);
            }
        }
        // own pieces to some squares, so that the list is not empty in ordinary positions
        for s in 0..81u8 {
            let to = (mix(salt ^ s as u64 ^ 77) % 81) as u8;
            let m = mv(MMove::Normal { from: s, to, promote: false });
            if self.answer(p, m).is_ok() {
                v.push(m);
            }
        }
        let mut i = v.len();
        while i > 1 {
            i -= 1;
            v.swap(i, (mix(salt + i as u64) % (i as u64 + 1)) as usize);
        }
        v
    }
}
impl LegalityChecker for Mock {
    fn status(&self, _: &Position) -> PositionStatus {
        self.status
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        self.partial
    }
    fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
        self.answer(p, m)
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
        self.answer(p, m).is_ok()
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        self.list(p)
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}
/// A checker whose status depends on the history, and which has a stricter history-based answer of its own.
struct Strict {
    inner: Mock,
    forbidden: u64,
}
impl Strict {
    fn verdict(&self, p: &Position, m: Move) -> Result<(), IllegalMoveKind> {
        if mix(self.forbidden ^ p.moves().len() as u64) % 4 == 0 {
            return Err(ILLEGAL[p.moves().len() % 7]);
        }
        self.inner.answer(p.inner(), m)
    }
}
impl LegalityChecker for Strict {
    fn status(&self, p: &Position) -> PositionStatus {
        STATUSES[p.moves().len() % 5]
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        self.inner.partial
    }
    fn is_legal(&self, p: &Position, m: Move) -> Result<(), IllegalMoveKind> {
        self.verdict(p, m)
    }
    fn is_legal_lite(&self, p: &Position, m: Move) -> bool {
        self.verdict(p, m).is_ok()
    }
    fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
        self.inner.answer(p, m)
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
        self.inner.answer(p, m).is_ok()
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        self.inner.list(p)
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct LegalCase {
    base: Hist,
    status: u8,
    partial: u8,
    answers: u8,
    salt: u64,
    probes: Vec<Op>,
}

pub fn c23(c: &mut Ctx) {
    let probes = |n: std::ops::Range<usize>| prop::collection::vec(op(Weights { near: 4, raw: 2, ..MOVES }), n);
    let strat = move |n: std::ops::Range<usize>| {
        (hist(play_base().boxed(), MIXED, 0..20), 0u8..8, 0u8..5, 0u8..10, any::<u64>(), probes(n)).prop_map(|(base, status, partial, answers, salt, probes)| LegalCase { base, status, partial, answers, salt, probes })
    };
    c.explore(
        "checkers",
        "checker with generated status, per-position status and answers (functions of position and move), then a sequence of moves through it, refused and accepted; non-trivial: both an accepted and a refused move, or a finished game",
        30_000,
        1_500_000,
        || strat(1..25),
        |l: &LegalCase, t| {
            let (mut m, p) = reach(&l.base)?;
            let mut q = Position::arbitrary_position(p);
            // in progress more often than not
            let status = STATUSES[if l.status >= 5 { 3 } else { l.status as usize }];
            let answers = match l.answers {
                0..=6 => Answers::Hashed(l.salt),
                7 | 8 => Answers::Lenient,
                _ => Answers::Refuse(ILLEGAL[(l.salt % 7) as usize]),
            };
            let k = Mock { status, partial: STATUSES[l.partial as usize % 5], answers };
            let kd: &Mock = &k;
            let (mut acc, mut refu) = (0, 0);
            let mut made = Vec::new();
            for (i, o) in l.probes.iter().enumerate() {
                let Act::Mv(x) = resolve(o, &m) else { continue };
                let r = mv(x);
                let finished = status != PositionStatus::InProgress;
                let exp = if finished { Err(IllegalMoveKind::GameFinished) } else { k.answer(q.inner(), r) };
                let at = m.clone();
                let wrap = |e: String| ctx_err(&at, format!("probe {i}: {} with status {status:?}", x.usi()), e);
                ensure!(kd.is_legal(&q, r) == exp, "{}", wrap(format!("is_legal gives {:?}, expected {exp:?}", kd.is_legal(&q, r))));
                ensure!(kd.is_legal_lite(&q, r) == exp.is_ok(), "{}", wrap(format!("is_legal_lite gives {:?}, expected {:?}", kd.is_legal_lite(&q, r), exp.is_ok())));
                if i % 4 == 0 {
                    let exp = if finished { vec![] } else { k.list(q.inner()) };
                    let got = kd.all_legal_moves(&q);
                    ensure!(got == exp, "{}", wrap(format!("all_legal_moves gives {} moves, expected {}\n got {got:?}\n exp {exp:?}", got.len(), exp.len())));
                    t.count("moves listed", exp.len() as u64);
                }
                let before = q.clone();
                let got = kd.make_move(&mut q, r);
                ensure!(got == exp, "{}", wrap(format!("make_move gives {got:?}, expected {exp:?}")));
                match exp {
                    Ok(()) => {
                        acc += 1;
                        t.class("accepted");
                        let before = m.clone();
                        ensure!(m.apply(x).is_ok(), "harness: the model refuses an accepted move {}", x.usi());
                        made.push(r);
                        observe(&q, &m).map_err(|e| ctx_err(&before, format!("after accepted {}", x.usi()), e))?;
                    }
                    Err(e) => {
                        refu += 1;
                        t.class(if finished { "refused: game finished" } else if e == IllegalMoveKind::IncorrectMove { "refused: incorrect" } else { "refused: by the checker" });
                        ensure!(q == before && hash_std(&q) == hash_std(&before), "{}", wrap("the refused move changed the position".into()));
                    }
                }
                ensure!(q.moves() == &made[..], "{}", wrap(format!("recorded moves {:?}, expected {made:?}", q.moves())));
                if i % 6 == 1 {
                    observe(&q, &m).map_err(|e| ctx_err(&m, x.usi(), e))?;
                }
            }
            if refu > 0 && (acc > 0 || status != PositionStatus::InProgress) {
                t.nontrivial();
            }
            Ok(())
        },
    );
    c.explore(
        "strict-checkers",
        "a checker with a history-dependent status and its own history-based legality answer: making a move follows that answer, the list of moves follows the status; non-trivial: a move accepted and a move refused",
        10_000,
        500_000,
        || strat(2..30),
        |l: &LegalCase, t| {
            let (mut m, p) = reach(&l.base)?;
            let mut q = Position::arbitrary_position(p);
            let k = Strict { inner: Mock { status: PositionStatus::InProgress, partial: STATUSES[l.partial as usize % 5], answers: Answers::Hashed(l.salt) }, forbidden: l.salt };
            let (mut acc, mut refu) = (0, 0);
            for (i, o) in l.probes.iter().enumerate() {
                let Act::Mv(x) = resolve(o, &m) else { continue };
                let r = mv(x);
                let at = m.clone();
                let wrap = |e: String| ctx_err(&at, format!("probe {i}: {}", x.usi()), e);
                let in_progress = STATUSES[q.moves().len() % 5] == PositionStatus::InProgress;
                let exp = if in_progress { k.inner.list(q.inner()) } else { vec![] };
                ensure!(k.all_legal_moves(&q) == exp, "{}", wrap("all_legal_moves does not follow the status".into()));
                let exp = k.verdict(&q, r);
                let before = q.clone();
                let got = k.make_move(&mut q, r);
                ensure!(got == exp, "{}", wrap(format!("make_move gives {got:?}, but the checker's is_legal gives {exp:?}")));
                if exp.is_ok() {
                    acc += 1;
                    t.class("accepted");
                    let _ = m.apply(x);
                    observe(&q, &m)?;
                    ensure!(q.moves().len() == before.moves().len() + 1 && q.moves().last() == Some(&r), "an accepted move is not recorded");
                } else {
                    refu += 1;
                    t.class("refused");
                    ensure!(q == before, "{}", wrap("the refused move changed the position".into()));
                }
            }
            if acc > 0 && refu > 0 {
                t.nontrivial();
            }
            Ok(())
        },
    );
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Combo {
        status: usize,
        partial: usize,
        answer: usize,
        n: u64,
    }
    c.enumerate(
        "combinations",
        "every (status, per-position status, answer: legal or one of 7 reasons) x 40 moves; non-trivial: all",
        5 * 5 * 8 * 40,
        1,
        |i| Combo { status: (i % 5) as usize, partial: (i / 5 % 5) as usize, answer: (i / 25 % 8) as usize, n: i / 200 },
        |o: &Combo, t| {
            t.nontrivial();
            let answers = if o.answer == 0 { Answers::Lenient } else { Answers::Refuse(ILLEGAL[o.answer - 1]) };
            let k = Mock { status: STATUSES[o.status], partial: STATUSES[o.partial], answers };
            let m = MPos::start();
            // half of them applicable
            let x = if o.n % 2 == 0 {
                MMove::Normal { from: at(1 + (o.n / 2 % 9) as u8, 7), to: at(1 + (o.n / 2 % 9) as u8, 6 - (o.n / 18 % 3) as u8), promote: o.n / 4 % 2 == 1 }
            } else {
                MMove::nth(mix(o.n))
            };
            let possible = m.judge(x).is_ok();
            let exp = if STATUSES[o.status] != PositionStatus::InProgress {
                Err(IllegalMoveKind::GameFinished)
            } else if o.answer > 0 {
                Err(ILLEGAL[o.answer - 1])
            } else if possible {
                Ok(())
            } else {
                Err(IllegalMoveKind::IncorrectMove)
            };
            let mut q = Position::startpos();
            ensure_eq!(k.is_legal(&q, mv(x)), exp, "is_legal({}) with {k:?}", x.usi());
            ensure_eq!(k.is_legal_lite(&q, mv(x)), exp.is_ok(), "is_legal_lite({}) with {k:?}", x.usi());
            ensure_eq!(k.make_move(&mut q, mv(x)), exp, "make_move({}) with {k:?}", x.usi());
            let mut m = m;
            if exp.is_ok() {
                m.apply(x).map_err(|e| format!("{e:?}"))?;
            }
            observe(&q, &m).map_err(|e| format!("{e} after {} with {k:?}", x.usi()))?;
            ensure_eq!(q.moves().len(), exp.is_ok() as usize, "recorded moves");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C24

pub const RESOLUTIONS: [GameResolution; 5] = [GameResolution::BlackWins, GameResolution::WhiteWins, GameResolution::Draw, GameResolution::Rematch, GameResolution::Aborted];

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Rec {
    Resolve(u8),
    Unresolve,
    /// Continue with a clone; the original is kept and must not change.
    Clone,
}

fn check_games(g: &Game, p: &PartialGame, exp: Option<u8>) -> Check {
    let e = exp.map(|i| RESOLUTIONS[i as usize]);
    ensure_eq!(g.resolution(), e, "resolution");
    ensure_eq!(p.resolution(), e, "resolution without history");
    ensure_eq!(Option::<GameResolution>::from(g.Game_resolution()), e, "C-style resolution");
    ensure_eq!(Option::<GameResolution>::from(p.PartialGame_resolution()), e, "C-style resolution without history");
    ensure_eq!(g.Game_resolution(), OptionGameResolution::from(e), "C-style resolution value");
    ensure_eq!(unsafe { std::mem::transmute::<OptionGameResolution, u8>(g.Game_resolution()) }, exp.map_or(0, |i| i + 1), "C-style resolution byte");
    let m = MPos::start();
    observe(g.position(), &m)?;
    observe(p.position(), &m)?;
    ensure!(g.position().moves().is_empty() && *g.position().initial_position() == PartialPosition::startpos(), "the recorded position is not the starting position");
    ensure!(*g.position() == Position::startpos() && *p.position() == PartialPosition::startpos(), "the recorded position is not the starting position");
    Ok(())
}

pub fn c24(c: &mut Ctx) {
    let rec = || prop_oneof![4 => (0u8..5).prop_map(Rec::Resolve), 2 => Just(Rec::Unresolve), 1 => Just(Rec::Clone)];
    c.explore(
        "records",
        "two sequences of resolve / unresolve / clone on both record types; states compared after every step, and the two records with each other; non-trivial: a resolution was replaced or taken back",
        20_000,
        500_000,
        || (prop::collection::vec(rec(), 0..20), prop::collection::vec(rec(), 0..6)),
        |(a, b): &(Vec<Rec>, Vec<Rec>), t| {
            let run = |v: &Vec<Rec>, t: &mut Tally| -> Result<(Game, PartialGame, Option<u8>), String> {
                let mut g = Game::default();
                let mut p = PartialGame::default();
                let mut s: Option<u8> = None;
                check_games(&g, &p, s).map_err(|e| format!("new record: {e}"))?;
                let mut kept = Vec::new();
                for (i, r) in v.iter().enumerate() {
                    match *r {
                        Rec::Resolve(n) => {
                            if s.is_some() {
                                t.class("resolution replaced");
                                t.nontrivial();
                            }
                            g.resolve(RESOLUTIONS[n as usize % 5]);
                            p.resolve(RESOLUTIONS[n as usize % 5]);
                            s = Some(n % 5);
                        }
                        Rec::Unresolve => {
                            if s.is_some() {
                                t.class("resolution taken back");
                                t.nontrivial();
                            }
                            g.unresolve();
                            p.unresolve();
                            s = None;
                        }
                        Rec::Clone => {
                            let (h, q) = (g.clone(), p.clone());
                            ensure!(h == g && q == p, "a clone differs from its original");
                            kept.push((std::mem::replace(&mut g, h), std::mem::replace(&mut p, q), s));
                        }
                    }
                    check_games(&g, &p, s).map_err(|e| format!("{e} (after step {i}: {r:?})"))?;
                }
                for (h, q, s) in &kept {
                    check_games(h, q, *s).map_err(|e| format!("{e} (of a record that was cloned earlier)"))?;
                }
                Ok((g, p, s))
            };
            let (g1, p1, s1) = run(a, t)?;
            let (g2, p2, s2) = run(b, t)?;
            let same = s1 == s2;
            use std::cmp::Ordering::Equal;
            ensure!((g1 == g2) == same && (g1 != g2) != same && (g1.cmp(&g2) == Equal) == same && (g1.partial_cmp(&g2) == Some(Equal)) == same, "records with resolutions {s1:?} and {s2:?}: equality or order wrong");
            ensure!((p1 == p2) == same && (p1 != p2) != same && (p1.cmp(&p2) == Equal) == same && (p1.partial_cmp(&p2) == Some(Equal)) == same, "records without history with resolutions {s1:?} and {s2:?}: equality or order wrong");
            ensure!(g1.cmp(&g2) == g2.cmp(&g1).reverse() && p1.cmp(&p2) == p2.cmp(&p1).reverse(), "order of records is not antisymmetric");
            if same {
                t.class("equal pair");
                ensure!(hash_std(&g1) == hash_std(&g2) && hash_std(&p1) == hash_std(&p2), "equal records hash differently");
            }
            Ok(())
        },
    );
    c.enumerate(
        "short-sequences",
        "every sequence of up to 5 operations out of {5 resolutions, unresolve}; non-trivial: length at least 2",
        6 + 36 + 216 + 1296 + 7776,
        1,
        |i| {
            let (mut n, mut len, mut size) = (i, 1, 6u64);
            while n >= size {
                n -= size;
                len += 1;
                size *= 6;
            }
            (0..len).map(|_| {
                let d = n % 6;
                n /= 6;
                d as u8
            })
            .collect::<Vec<u8>>()
        },
        |v: &Vec<u8>, t| {
            if v.len() >= 2 {
                t.nontrivial();
            }
            let (mut g, mut p, mut s) = (Game::default(), PartialGame::default(), None);
            for &d in v {
                if d < 5 {
                    g.resolve(RESOLUTIONS[d as usize]);
                    p.resolve(RESOLUTIONS[d as usize]);
                    s = Some(d);
                } else {
                    g.unresolve();
                    p.unresolve();
                    s = None;
                }
            }
            check_games(&g, &p, s)
        },
    );
}
