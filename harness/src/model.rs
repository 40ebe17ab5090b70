//! The reference model. Plain arrays, written from the property statements; shares no code with shogi_core.
//!
//! Squares are numbered 0..81 as 9*(file-1)+(rank-1). A piece is a byte: kind 1..=14, plus 16 for White; 0 is "none".
use serde::{Deserialize, Serialize};

pub const NONE: u8 = 0;
pub const KING: u8 = 8;

pub fn kind_of(p: u8) -> u8 {
    p & 15
}
/// 0 = Black, 1 = White
pub fn color_of(p: u8) -> usize {
    (p >> 4) as usize
}
pub fn piece(kind: u8, color: usize) -> u8 {
    kind + 16 * color as u8
}
pub fn promoted_form(kind: u8) -> Option<u8> {
    match kind {
        1 => Some(9),
        2 => Some(10),
        3 => Some(11),
        4 => Some(12),
        6 => Some(13),
        7 => Some(14),
        _ => None,
    }
}
pub fn unpromoted_form(kind: u8) -> Option<u8> {
    match kind {
        9 => Some(1),
        10 => Some(2),
        11 => Some(3),
        12 => Some(4),
        13 => Some(6),
        14 => Some(7),
        _ => None,
    }
}
pub fn is_hand_kind(kind: u8) -> bool {
    (1..=7).contains(&kind)
}
pub fn all_pieces() -> impl Iterator<Item = u8> {
    (1..=14).chain(17..=30)
}
pub fn valid_piece(p: u8) -> bool {
    matches!(p, 1..=14 | 17..=30)
}
/// The nth of the 28 pieces.
pub fn nth_piece(n: usize) -> u8 {
    let n = n % 28;
    if n < 14 {
        n as u8 + 1
    } else {
        n as u8 + 3
    }
}
pub fn file_of(sq: u8) -> u8 {
    sq / 9 + 1
}
pub fn rank_of(sq: u8) -> u8 {
    sq % 9 + 1
}
pub fn at(file: u8, rank: u8) -> u8 {
    (file - 1) * 9 + rank - 1
}
pub fn flip_sq(sq: u8) -> u8 {
    80 - sq
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum MMove {
    Normal { from: u8, to: u8, promote: bool },
    Drop { piece: u8, to: u8 },
}

impl MMove {
    pub fn usi(self) -> String {
        match self {
            MMove::Normal { from, to, promote } => format!("{}{}{}", usi_square(from), usi_square(to), if promote { "+" } else { "" }),
            MMove::Drop { piece, to } => format!("{}*{}", usi_kind(kind_of(piece)), usi_square(to)),
        }
    }
    /// Every well-formed move has a number below `MMove::COUNT`.
    pub const COUNT: u64 = 81 * 81 * 2 + 28 * 81;
    pub fn nth(n: u64) -> MMove {
        let n = n % Self::COUNT;
        if n < 81 * 81 * 2 {
            MMove::Normal { from: (n / 162) as u8, to: (n / 2 % 81) as u8, promote: n % 2 == 1 }
        } else {
            let n = n - 81 * 81 * 2;
            MMove::Drop { piece: nth_piece((n / 81) as usize), to: (n % 81) as u8 }
        }
    }
    /// The documented 16-bit encoding.
    pub fn encode(self) -> u16 {
        match self {
            MMove::Normal { from, to, promote } => (to as u16 + 1) + ((from as u16 + 1) << 8) + if promote { 1 << 15 } else { 0 },
            MMove::Drop { piece, to } => (to as u16 + 1) + 128 + ((piece as u16) << 8),
        }
    }
    pub fn mirrored(self) -> MMove {
        match self {
            MMove::Normal { from, to, promote } => MMove::Normal { from: flip_sq(from), to: flip_sq(to), promote },
            MMove::Drop { piece, to } => MMove::Drop { piece: piece ^ 16, to: flip_sq(to) },
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MPos {
    pub board: [u8; 81],
    pub hands: [[u8; 8]; 2], // index 1..=7 used
    pub side: usize,
    pub ply: u16,
    pub last: Option<MMove>,
}

/// Why a move is refused (for classification and messages only).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Refusal {
    VacantSource,
    NotYours,
    NoPromotedForm,
    OwnOnTarget,
    KingOnTarget,
    DropNotYours,
    DropPromoted,
    DropKing,
    DropOccupied,
    DropEmptyHand,
}

impl MPos {
    pub fn empty() -> MPos {
        MPos { board: [NONE; 81], hands: [[0; 8]; 2], side: 0, ply: 1, last: None }
    }
    pub fn start() -> MPos {
        let mut p = MPos::empty();
        let back = [2u8, 3, 4, 5, 8, 5, 4, 3, 2];
        for f in 1..=9u8 {
            p.board[at(f, 1) as usize] = piece(back[f as usize - 1], 1);
            p.board[at(f, 9) as usize] = piece(back[f as usize - 1], 0);
            p.board[at(f, 3) as usize] = piece(1, 1);
            p.board[at(f, 7) as usize] = piece(1, 0);
        }
        p.board[at(8, 8) as usize] = piece(6, 0);
        p.board[at(2, 8) as usize] = piece(7, 0);
        p.board[at(2, 2) as usize] = piece(6, 1);
        p.board[at(8, 2) as usize] = piece(7, 1);
        p
    }
    pub fn judge(&self, mv: MMove) -> Result<(), Refusal> {
        match mv {
            MMove::Normal { from, to, promote } => {
                let p = self.board[from as usize];
                if p == NONE {
                    return Err(Refusal::VacantSource);
                }
                if color_of(p) != self.side {
                    return Err(Refusal::NotYours);
                }
                if promote && promoted_form(kind_of(p)).is_none() {
                    return Err(Refusal::NoPromotedForm);
                }
                let t = self.board[to as usize];
                if t != NONE {
                    if color_of(t) == self.side {
                        return Err(Refusal::OwnOnTarget);
                    }
                    if kind_of(t) == KING {
                        return Err(Refusal::KingOnTarget);
                    }
                }
                Ok(())
            }
            MMove::Drop { piece: p, to } => {
                if color_of(p) != self.side {
                    return Err(Refusal::DropNotYours);
                }
                if unpromoted_form(kind_of(p)).is_some() {
                    return Err(Refusal::DropPromoted);
                }
                if kind_of(p) == KING {
                    return Err(Refusal::DropKing);
                }
                if self.board[to as usize] != NONE {
                    return Err(Refusal::DropOccupied);
                }
                if self.hands[self.side][kind_of(p) as usize] == 0 {
                    return Err(Refusal::DropEmptyHand);
                }
                Ok(())
            }
        }
    }
    pub fn apply(&mut self, mv: MMove) -> Result<(), Refusal> {
        self.judge(mv)?;
        match mv {
            MMove::Normal { from, to, promote } => {
                let p = self.board[from as usize];
                let t = self.board[to as usize];
                if t != NONE {
                    let k = kind_of(t);
                    let k = unpromoted_form(k).unwrap_or(k);
                    let c = &mut self.hands[self.side][k as usize];
                    *c = ((*c as u16 + 1) % 256) as u8;
                }
                self.board[from as usize] = NONE;
                self.board[to as usize] = if promote { piece(promoted_form(kind_of(p)).unwrap(), self.side) } else { p };
            }
            MMove::Drop { piece: p, to } => {
                self.hands[self.side][kind_of(p) as usize] -= 1;
                self.board[to as usize] = p;
            }
        }
        self.side = 1 - self.side;
        self.ply = ((self.ply as u32 + 1) % 65536) as u16;
        self.last = Some(mv);
        Ok(())
    }
    pub fn set_of(&self, f: impl Fn(u8) -> bool) -> impl Iterator<Item = u8> + '_ {
        let v: Vec<u8> = (0..81u8).filter(|&s| f(self.board[s as usize])).collect();
        v.into_iter()
    }
    pub fn kings(&self, color: usize) -> Vec<u8> {
        self.set_of(|p| p == piece(KING, color)).collect()
    }
    pub fn hands_text(&self) -> String {
        hands_text(&self.hands)
    }
    pub fn sfen(&self) -> String {
        let mut rows = Vec::new();
        for rank in 1..=9u8 {
            let mut row = String::new();
            let mut run = 0;
            for file in (1..=9u8).rev() {
                let p = self.board[at(file, rank) as usize];
                if p == NONE {
                    run += 1;
                } else {
                    if run > 0 {
                        row.push_str(&run.to_string());
                        run = 0;
                    }
                    row.push_str(&usi_piece(p));
                }
            }
            if run > 0 {
                row.push_str(&run.to_string());
            }
            rows.push(row);
        }
        format!("{} {} {} {}", rows.join("/"), if self.side == 0 { "b" } else { "w" }, self.hands_text(), self.ply)
    }
    /// Strict parser of the canonical SFEN text.
    pub fn parse(s: &str) -> Result<MPos, String> {
        let parts: Vec<&str> = s.split(' ').collect();
        if parts.len() != 4 {
            return Err(format!("{} fields", parts.len()));
        }
        let mut p = MPos::empty();
        let rows: Vec<&str> = parts[0].split('/').collect();
        if rows.len() != 9 {
            return Err(format!("{} ranks", rows.len()));
        }
        for (r, row) in rows.iter().enumerate() {
            let mut file = 9i32;
            let mut plus = false;
            let mut digit_before = false;
            for c in row.chars() {
                if c.is_ascii_digit() {
                    if plus || digit_before || c == '0' {
                        return Err(format!("bad digit in rank {}", r + 1));
                    }
                    file -= c as i32 - '0' as i32;
                    digit_before = true;
                } else if c == '+' {
                    if plus {
                        return Err("double +".into());
                    }
                    plus = true;
                    digit_before = false;
                } else {
                    let k = "PLNSGBRK".find(c.to_ascii_uppercase()).ok_or(format!("bad letter {c:?}"))? as u8 + 1;
                    let k = if plus { promoted_form(k).ok_or("bad promotion")? } else { k };
                    plus = false;
                    digit_before = false;
                    if !(1..=9).contains(&file) {
                        return Err(format!("rank {} too long", r + 1));
                    }
                    p.board[at(file as u8, r as u8 + 1) as usize] = piece(k, c.is_ascii_lowercase() as usize);
                    file -= 1;
                }
                if file < 0 {
                    return Err(format!("rank {} too long", r + 1));
                }
            }
            if file != 0 || plus {
                return Err(format!("rank {} has {} files", r + 1, 9 - file));
            }
        }
        p.side = match parts[1] {
            "b" => 0,
            "w" => 1,
            x => return Err(format!("side {x:?}")),
        };
        p.hands = parse_hands(parts[2])?;
        p.ply = parts[3].parse::<u16>().map_err(|e| e.to_string())?;
        if p.ply.to_string() != parts[3] {
            return Err("ply not canonical".into());
        }
        Ok(p)
    }
    pub fn mirrored(&self) -> MPos {
        let mut m = MPos::empty();
        for s in 0..81u8 {
            let p = self.board[s as usize];
            m.board[flip_sq(s) as usize] = if p == NONE { NONE } else { p ^ 16 };
        }
        m.hands = [self.hands[1], self.hands[0]];
        m.side = 1 - self.side;
        m.ply = self.ply;
        m.last = self.last.map(MMove::mirrored);
        m
    }
    /// Total of each unpromoted kind (index 1..=8) on board and in hands.
    pub fn totals(&self) -> [u32; 9] {
        let mut t = [0u32; 9];
        for &p in &self.board {
            if p != NONE {
                let k = kind_of(p);
                t[unpromoted_form(k).unwrap_or(k) as usize] += 1;
            }
        }
        for h in &self.hands {
            for k in 1..=7 {
                t[k] += h[k] as u32;
            }
        }
        t
    }
}

pub fn hands_text(hands: &[[u8; 8]; 2]) -> String {
    let mut s = String::new();
    for c in 0..2 {
        for k in [7u8, 6, 5, 4, 3, 2, 1] {
            let n = hands[c][k as usize];
            if n > 1 {
                s.push_str(&n.to_string());
            }
            if n > 0 {
                s.push_str(&usi_piece(piece(k, c)));
            }
        }
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

/// Strict parser of the canonical hands field.
pub fn parse_hands(s: &str) -> Result<[[u8; 8]; 2], String> {
    let mut hands = [[0u8; 8]; 2];
    if s == "-" {
        return Ok(hands);
    }
    if s.is_empty() {
        return Err("empty hands field".into());
    }
    let order = "RBGSNLPrbgsnlp";
    let mut last = -1i32;
    let mut num = String::new();
    for c in s.chars() {
        if c.is_ascii_digit() {
            num.push(c);
        } else {
            let i = order.find(c).ok_or(format!("bad hand letter {c:?}"))? as i32;
            if i <= last {
                return Err("hand order".into());
            }
            last = i;
            let n = if num.is_empty() {
                1
            } else {
                let n: u32 = num.parse().map_err(|_| "bad count")?;
                if n < 2 || n > 255 || n.to_string() != num {
                    return Err(format!("count {num:?} not canonical"));
                }
                n
            };
            num.clear();
            hands[(i / 7) as usize][7 - (i % 7) as usize] = n as u8;
        }
    }
    if !num.is_empty() {
        return Err("trailing count".into());
    }
    Ok(hands)
}

pub fn usi_square(sq: u8) -> String {
    format!("{}{}", file_of(sq), (b'a' + rank_of(sq) - 1) as char)
}
pub fn usi_kind(kind: u8) -> String {
    let letters = ["", "P", "L", "N", "S", "G", "B", "R", "K", "+P", "+L", "+N", "+S", "+B", "+R"];
    letters[kind as usize].to_string()
}
pub fn usi_piece(p: u8) -> String {
    let s = usi_kind(kind_of(p));
    if color_of(p) == 1 {
        s.to_lowercase()
    } else {
        s
    }
}
/// Reads a USI move back; the colour of a dropped piece is the mover's.
pub fn parse_usi_move(s: &str, side: usize) -> Option<MMove> {
    let b = s.as_bytes();
    let sq = |f: u8, r: u8| -> Option<u8> {
        if (b'1'..=b'9').contains(&f) && (b'a'..=b'i').contains(&r) {
            Some(at(f - b'0', r - b'a' + 1))
        } else {
            None
        }
    };
    if let Some(star) = s.find('*') {
        let kind = (1..=14u8).find(|&k| usi_kind(k) == s[..star])?;
        let r = &b[star + 1..];
        if r.len() != 2 {
            return None;
        }
        return Some(MMove::Drop { piece: piece(kind, side), to: sq(r[0], r[1])? });
    }
    let promote = match b.len() {
        4 => false,
        5 if b[4] == b'+' => true,
        _ => return None,
    };
    Some(MMove::Normal { from: sq(b[0], b[1])?, to: sq(b[2], b[3])?, promote })
}
