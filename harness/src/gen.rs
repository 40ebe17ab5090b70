//! Generators: positions, and histories of interpretive operations that are resolved against the model.
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Base {
    Start,
    Empty,
    /// The 40 pieces of an ordinary set; `(where, flags)` per piece: below `bias` on the board, otherwise in a hand.
    Std { bias: u8, places: Vec<(u8, u8)>, white: bool, ply: u16 },
    /// Anything at all.
    Free { cells: Vec<(u8, u8)>, hands: [u8; 14], white: bool, ply: u16 },
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    /// A board move of one of the mover's own pieces to an admissible square.
    Move { a: u16, b: u16, p: bool },
    Capture { a: u16, b: u16, p: bool },
    Drop { a: u16, b: u16 },
    Raw { from: u8, to: u8, p: bool },
    RawDrop { piece: u8, to: u8 },
    /// A move that is refused for a chosen reason.
    Near { k: u8, a: u16, b: u16 },
    Set { sq: u8, piece: u8 },
    Hand { slot: u8, val: u8 },
    Side(bool),
    Ply(u16),
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Hist {
    pub base: Base,
    pub ops: Vec<Op>,
}

/// A resolved operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Nop,
    Mv(MMove),
    Set(u8, u8),
    Hand(usize, u8, u8),
    Side(usize),
    Ply(u16),
}

pub const STD_SET: [u8; 40] = [
    8, 8, 7, 7, 6, 6, 5, 5, 5, 5, 4, 4, 4, 4, 3, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
];

impl Base {
    pub fn build(&self) -> MPos {
        match self {
            Base::Start => MPos::start(),
            Base::Empty => MPos::empty(),
            Base::Std { bias, places, white, ply } => {
                let mut m = MPos::empty();
                for (i, &kind) in STD_SET.iter().enumerate() {
                    let (loc, flags) = places.get(i).copied().unwrap_or((i as u8, 0));
                    let color = if kind == KING { i } else { (flags & 1) as usize };
                    if loc <= *bias || kind == KING {
                        let mut s = loc % 81;
                        while m.board[s as usize] != NONE {
                            s = (s + 1) % 81;
                        }
                        let k = if flags & 2 != 0 { promoted_form(kind).unwrap_or(kind) } else { kind };
                        m.board[s as usize] = piece(k, color);
                    } else {
                        m.hands[color][kind as usize] += 1;
                    }
                }
                m.side = *white as usize;
                m.ply = *ply;
                m
            }
            Base::Free { cells, hands, white, ply } => {
                let mut m = MPos::empty();
                for &(s, p) in cells {
                    m.board[s as usize % 81] = nth_piece(p as usize);
                }
                for i in 0..14 {
                    m.hands[i / 7][i % 7 + 1] = hands[i];
                }
                m.side = *white as usize;
                m.ply = *ply;
                m
            }
        }
    }
    pub fn is_standard(&self) -> bool {
        matches!(self, Base::Start | Base::Std { .. })
    }
}

fn pick<T: Copy>(v: &[T], n: u16) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[n as usize % v.len()])
    }
}

pub fn resolve(op: &Op, m: &MPos) -> Act {
    let own = || -> Vec<u8> { (0..81u8).filter(|&s| m.board[s as usize] != NONE && color_of(m.board[s as usize]) == m.side).collect() };
    let enemy = || -> Vec<u8> { (0..81u8).filter(|&s| m.board[s as usize] != NONE && color_of(m.board[s as usize]) != m.side).collect() };
    let vacant = || -> Vec<u8> { (0..81u8).filter(|&s| m.board[s as usize] == NONE).collect() };
    let nonking_enemy = || -> Vec<u8> { enemy().into_iter().filter(|&s| kind_of(m.board[s as usize]) != KING).collect() };
    let normal = |from: u8, to: u8, p: bool| {
        let promote = p && promoted_form(kind_of(m.board[from as usize])).is_some();
        Act::Mv(MMove::Normal { from, to, promote })
    };
    match *op {
        Op::Move { a, b, p } => {
            let t: Vec<u8> = (0..81u8)
                .filter(|&s| {
                    let q = m.board[s as usize];
                    q == NONE || (color_of(q) != m.side && kind_of(q) != KING)
                })
                .collect();
            match (pick(&own(), a), pick(&t, b)) {
                (Some(f), Some(t)) => normal(f, t, p),
                _ => Act::Nop,
            }
        }
        Op::Capture { a, b, p } => match (pick(&own(), a), pick(&nonking_enemy(), b)) {
            (Some(f), Some(t)) => normal(f, t, p),
            _ => Act::Nop,
        },
        Op::Drop { a, b } => {
            let kinds: Vec<u8> = (1..=7u8).filter(|&k| m.hands[m.side][k as usize] > 0).collect();
            match (pick(&kinds, a), pick(&vacant(), b)) {
                (Some(k), Some(to)) => Act::Mv(MMove::Drop { piece: piece(k, m.side), to }),
                _ => Act::Nop,
            }
        }
        Op::Raw { from, to, p } => Act::Mv(MMove::Normal { from: from % 81, to: to % 81, promote: p }),
        Op::RawDrop { piece, to } => Act::Mv(MMove::Drop { piece: nth_piece(piece as usize), to: to % 81 }),
        Op::Near { k, a, b } => {
            let s = m.side;
            let mv = match k % 14 {
                0 => pick(&vacant(), a).map(|f| MMove::Normal { from: f, to: (b % 81) as u8, promote: b % 2 == 1 }),
                1 => pick(&enemy(), a).map(|f| MMove::Normal { from: f, to: (b % 81) as u8, promote: b % 2 == 1 && promoted_form(kind_of(m.board[f as usize])).is_some() }),
                2 => match (pick(&own(), a), pick(&own(), b)) {
                    (Some(from), Some(to)) => Some(MMove::Normal { from, to, promote: a % 2 == 1 && promoted_form(kind_of(m.board[from as usize])).is_some() }),
                    _ => None,
                },
                3 => {
                    let k: Vec<u8> = m.kings(1 - s);
                    match (pick(&own(), a), pick(&k, b)) {
                        (Some(from), Some(to)) => Some(MMove::Normal { from, to, promote: b % 3 == 1 && promoted_form(kind_of(m.board[from as usize])).is_some() }),
                        _ => None,
                    }
                }
                4 => {
                    let g: Vec<u8> = own().into_iter().filter(|&q| promoted_form(kind_of(m.board[q as usize])).is_none()).collect();
                    let t: Vec<u8> = vacant().into_iter().chain(nonking_enemy()).collect();
                    match (pick(&g, a), pick(&t, b)) {
                        (Some(from), Some(to)) => Some(MMove::Normal { from, to, promote: true }),
                        _ => None,
                    }
                }
                // promotion refused although there is something to capture
                5 => {
                    let g: Vec<u8> = own().into_iter().filter(|&q| promoted_form(kind_of(m.board[q as usize])).is_none()).collect();
                    match (pick(&g, a), pick(&nonking_enemy(), b)) {
                        (Some(from), Some(to)) => Some(MMove::Normal { from, to, promote: true }),
                        _ => None,
                    }
                }
                6 => pick(&own(), a).map(|f| MMove::Normal { from: f, to: f, promote: b % 2 == 1 }),
                7 => {
                    let occ: Vec<u8> = own().into_iter().chain(enemy()).collect();
                    let kinds: Vec<u8> = (1..=7u8).filter(|&k| m.hands[s][k as usize] > 0).collect();
                    let k = pick(&kinds, a).unwrap_or((a % 7) as u8 + 1);
                    pick(&occ, b).map(|to| MMove::Drop { piece: piece(k, s), to })
                }
                8 => {
                    let kinds: Vec<u8> = (1..=7u8).filter(|&k| m.hands[s][k as usize] == 0).collect();
                    match (pick(&kinds, a), pick(&vacant(), b)) {
                        (Some(k), Some(to)) => Some(MMove::Drop { piece: piece(k, s), to }),
                        _ => None,
                    }
                }
                9 => pick(&vacant(), b).map(|to| MMove::Drop { piece: piece(9 + (a % 6) as u8, s), to }),
                // the promoted form of something that is in hand
                10 => {
                    let kinds: Vec<u8> = (1..=7u8).filter(|&k| m.hands[s][k as usize] > 0 && promoted_form(k).is_some()).collect();
                    match (pick(&kinds, a), pick(&vacant(), b)) {
                        (Some(k), Some(to)) => Some(MMove::Drop { piece: piece(promoted_form(k).unwrap(), s), to }),
                        _ => None,
                    }
                }
                11 => pick(&vacant(), b).map(|to| MMove::Drop { piece: piece(KING, s), to }),
                12 => {
                    let kinds: Vec<u8> = (1..=7u8).filter(|&k| m.hands[1 - s][k as usize] > 0).collect();
                    let k = pick(&kinds, a).unwrap_or((a % 7) as u8 + 1);
                    pick(&vacant(), b).map(|to| MMove::Drop { piece: piece(k, 1 - s), to })
                }
                _ => {
                    let k: Vec<u8> = m.kings(s);
                    match (pick(&k, a), pick(&vacant(), b)) {
                        (Some(from), Some(to)) => Some(MMove::Normal { from, to, promote: true }),
                        _ => None,
                    }
                }
            };
            mv.map_or(Act::Nop, Act::Mv)
        }
        Op::Set { sq, piece } => Act::Set(sq % 81, if piece >= 28 { NONE } else { nth_piece(piece as usize) }),
        Op::Hand { slot, val } => Act::Hand((slot as usize / 7) % 2, slot % 7 + 1, val),
        Op::Side(w) => Act::Side(w as usize),
        Op::Ply(p) => Act::Ply(p),
    }
}

pub fn act_on_model(m: &mut MPos, a: Act) {
    match a {
        Act::Nop | Act::Mv(_) => {}
        Act::Set(s, p) => m.board[s as usize] = p,
        Act::Hand(c, k, v) => m.hands[c][k as usize] = v,
        Act::Side(s) => m.side = s,
        Act::Ply(p) => {
            if p != 0 {
                m.ply = p
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------- strategies

pub fn ply() -> impl Strategy<Value = u16> {
    prop_oneof![
        3 => 1u16..=400,
        2 => prop::sample::select(vec![1u16, 9, 10, 99, 100, 101, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 10001, 32766, 32767, 32768, 65280, 65534, 65535]),
        2 => 1u16..=65535,
    ]
}
pub fn count() -> impl Strategy<Value = u8> {
    prop_oneof![
        6 => Just(0u8),
        6 => 1u8..=4,
        3 => prop::sample::select(vec![1u8, 2, 9, 10, 11, 18, 19, 20, 63, 64, 99, 100, 101, 109, 110, 127, 128, 199, 200, 254, 255]),
        2 => any::<u8>(),
    ]
}
pub fn cells() -> impl Strategy<Value = Vec<(u8, u8)>> {
    let palette = prop_oneof![
        6 => Just(0u8),
        1 => Just(1),
        1 => Just(2),
        1 => Just(3),
    ];
    let n = prop_oneof![3 => 0usize..12, 3 => 12usize..45, 1 => 45usize..140];
    (palette, n)
        .prop_flat_map(|(pal, n)| {
            let p = match pal {
                0 => (0u8..28).boxed(),
                1 => prop::sample::select(vec![8u8, 9, 10, 11, 12, 13, 22, 23, 24, 25, 26, 27, 7, 21]).boxed(), // promoted and kings
                2 => prop::sample::select(vec![0u8, 14, 0, 14, 7, 21, 5, 6, 19, 20]).boxed(),
                _ => prop::sample::select(vec![7u8, 21, 7, 21, 4, 18, 0]).boxed(), // king-heavy
            };
            prop::collection::vec((0u8..81, p), n..=n)
        })
}
pub fn base() -> impl Strategy<Value = Base> {
    prop_oneof![
        2 => Just(Base::Start),
        1 => Just(Base::Empty),
        4 => std_base(),
        5 => free_base(),
    ]
}
pub fn std_base() -> impl Strategy<Value = Base> {
    let bias = prop_oneof![3 => 200u8..=255, 3 => 100u8..=200, 1 => 0u8..=100];
    (bias, prop::collection::vec((any::<u8>(), any::<u8>()), 40..=40), any::<bool>(), ply()).prop_map(|(bias, places, white, ply)| Base::Std { bias, places, white, ply })
}
pub fn free_base() -> impl Strategy<Value = Base> {
    (cells(), prop::array::uniform14(count()), any::<bool>(), ply()).prop_map(|(cells, hands, white, ply)| Base::Free { cells, hands, white, ply })
}
/// Bases in which moves are possible at once (no `Empty`).
pub fn play_base() -> impl Strategy<Value = Base> {
    prop_oneof![3 => Just(Base::Start), 5 => std_base(), 4 => free_base()]
}

#[derive(Clone, Copy, Debug)]
pub struct Weights {
    pub mv: u32,
    pub cap: u32,
    pub drop: u32,
    pub raw: u32,
    pub near: u32,
    pub set: u32,
    pub king: u32,
    pub hand: u32,
    pub side: u32,
    pub ply: u32,
}
pub const MOVES: Weights = Weights { mv: 10, cap: 8, drop: 6, raw: 1, near: 3, set: 0, king: 0, hand: 0, side: 0, ply: 0 };
pub const MIXED: Weights = Weights { mv: 8, cap: 6, drop: 5, raw: 1, near: 2, set: 5, king: 2, hand: 2, side: 1, ply: 1 };
pub const EDITS: Weights = Weights { mv: 3, cap: 2, drop: 2, raw: 0, near: 1, set: 12, king: 5, hand: 1, side: 1, ply: 0 };
pub const REFUSE: Weights = Weights { mv: 4, cap: 3, drop: 3, raw: 4, near: 14, set: 1, king: 1, hand: 1, side: 1, ply: 0 };
pub const KINGS: Weights = Weights { mv: 6, cap: 3, drop: 1, raw: 0, near: 1, set: 5, king: 12, hand: 0, side: 2, ply: 0 };

pub fn op(w: Weights) -> impl Strategy<Value = Op> {
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = Vec::new();
    let mut add = |n: u32, s: BoxedStrategy<Op>| {
        if n > 0 {
            v.push((n, s));
        }
    };
    add(w.mv, (any::<u16>(), any::<u16>(), any::<bool>()).prop_map(|(a, b, p)| Op::Move { a, b, p }).boxed());
    add(w.cap, (any::<u16>(), any::<u16>(), any::<bool>()).prop_map(|(a, b, p)| Op::Capture { a, b, p }).boxed());
    add(w.drop, (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Op::Drop { a, b }).boxed());
    add(w.raw, (0u8..81, 0u8..81, any::<bool>()).prop_map(|(from, to, p)| Op::Raw { from, to, p }).boxed());
    add(w.raw, (0u8..28, 0u8..81).prop_map(|(piece, to)| Op::RawDrop { piece, to }).boxed());
    add(w.near, (0u8..14, any::<u16>(), any::<u16>()).prop_map(|(k, a, b)| Op::Near { k, a, b }).boxed());
    add(w.set, (0u8..81, prop_oneof![2 => 0u8..28, 1 => Just(28u8)]).prop_map(|(sq, piece)| Op::Set { sq, piece }).boxed());
    add(w.king, (0u8..81, prop::sample::select(vec![7u8, 21, 7, 21, 28])).prop_map(|(sq, piece)| Op::Set { sq, piece }).boxed());
    add(w.hand, (0u8..14, count()).prop_map(|(slot, val)| Op::Hand { slot, val }).boxed());
    add(w.side, any::<bool>().prop_map(Op::Side).boxed());
    add(w.ply, ply().prop_map(Op::Ply).boxed());
    Union::new_weighted(v)
}
pub fn hist(b: BoxedStrategy<Base>, w: Weights, len: std::ops::Range<usize>) -> impl Strategy<Value = Hist> {
    (b, prop::collection::vec(op(w), len)).prop_map(|(base, ops)| Hist { base, ops })
}

/// A subset of the board: bit i for square i.
#[derive(Clone, Copy, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Set81 {
    pub lo: u64,
    pub hi: u64,
}
impl Set81 {
    pub const ALL: u128 = (1 << 81) - 1;
    pub fn new(m: u128) -> Set81 {
        let m = m & Self::ALL;
        Set81 { lo: m as u64, hi: (m >> 64) as u64 }
    }
    pub fn mask(self) -> u128 {
        self.lo as u128 | (self.hi as u128) << 64
    }
    pub fn has(self, s: u8) -> bool {
        self.mask() >> s & 1 == 1
    }
    pub fn squares(self) -> impl Iterator<Item = u8> {
        (0..81u8).filter(move |&s| self.has(s))
    }
}
impl std::fmt::Debug for Set81 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let v: Vec<String> = self.squares().map(usi_square).collect();
        write!(f, "{{{}}}", v.join(","))
    }
}

/// Biased towards the places where shifts, words and bytes end.
pub fn subset() -> impl Strategy<Value = Set81> {
    subset_mask().prop_map(Set81::new)
}
fn subset_mask() -> impl Strategy<Value = u128> {
    const ALL: u128 = (1 << 81) - 1;
    let line = |files: bool| {
        move |n: u8| -> u128 {
            (0..81u8).filter(|&s| if files { s / 9 == n } else { s % 9 == n }).fold(0, |a, s| a | 1u128 << s)
        }
    };
    prop_oneof![
        1 => Just(0u128),
        1 => Just(ALL),
        2 => (0u8..81).prop_map(|s| 1u128 << s),
        2 => (0u8..81).prop_map(|s| ALL & !(1u128 << s)),
        3 => prop::collection::vec(0u8..81, 0..8).prop_map(|v| v.iter().fold(0u128, |a, &s| a | 1 << s)),
        2 => prop::collection::vec((0u8..9, any::<bool>()), 1..4).prop_map(move |v| v.iter().fold(0u128, |a, &(n, f)| a | line(f)(n))),
        2 => prop::collection::vec(prop::sample::select(vec![0u8, 1, 7, 8, 9, 53, 54, 55, 60, 61, 62, 63, 64, 65, 70, 71, 72, 73, 79, 80]), 1..10).prop_map(|v| v.iter().fold(0u128, |a, &s| a | 1 << s)),
        3 => any::<u128>().prop_map(|x| x & ALL),
        2 => (any::<u128>(), any::<u128>()).prop_map(|(x, y)| x & y & ALL),
        2 => (any::<u128>(), any::<u128>()).prop_map(|(x, y)| (x | y) & ALL),
    ]
}
