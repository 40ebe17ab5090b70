//! The interpreter.
use core::fmt::Write as _;
use shogi_core::c_compat::*;
use shogi_core::*;

#[cfg(feature = "alloc")]
extern crate alloc;

pub const N_PP: usize = 4;
pub const N_POS: usize = 3;
pub const N_BB: usize = 8;
pub const N_HAND: usize = 4;

/// Operation codes. Those below `FIRST_RUST_ONLY` exist in C too.
pub mod op {
    pub const SQ_INFO: u8 = 0;
    pub const SQ_NEW: u8 = 1;
    pub const SQ_FROM_U8: u8 = 2;
    pub const SQ_SHIFT: u8 = 3;
    pub const PK_INFO: u8 = 4;
    pub const PK_FROM_U8: u8 = 5;
    pub const PIECE_INFO: u8 = 6;
    pub const PIECE_NEW: u8 = 7;
    pub const COLOR_INFO: u8 = 8;
    pub const ENUMS: u8 = 9;
    pub const CM_NORMAL: u8 = 10;
    pub const CM_DROP: u8 = 11;
    pub const BB_CLEAR: u8 = 12;
    pub const BB_ADD: u8 = 13;
    pub const BB_BIN: u8 = 14;
    pub const BB_NOT: u8 = 15;
    pub const BB_FLIP: u8 = 16;
    pub const BB_POP: u8 = 17;
    pub const BB_POPALL: u8 = 18;
    pub const BB_DUMP: u8 = 19;
    pub const BB_LOAD: u8 = 20;
    pub const HAND_NEW: u8 = 21;
    pub const HAND_ADD: u8 = 22;
    pub const HAND_REMOVE: u8 = 23;
    pub const HAND_DUMP: u8 = 24;
    pub const HAND_LOAD: u8 = 25;
    pub const PP_START: u8 = 30;
    pub const PP_INIT: u8 = 31;
    pub const PP_COPY: u8 = 32;
    pub const PP_MOVE: u8 = 33;
    pub const PP_OBS: u8 = 34;
    pub const PP_SFEN: u8 = 35;
    pub const PP_FIELDS: u8 = 36;
    pub const POS_NEW: u8 = 40;
    pub const POS_MOVE: u8 = 41;
    pub const POS_OBS: u8 = 42;
    pub const POS_SFEN: u8 = 43;
    pub const POS_INNER: u8 = 44;
    pub const POS_INITIAL: u8 = 45;
    pub const FIRST_RUST_ONLY: u8 = 60;
    pub const PP_EMPTY: u8 = 60;
    pub const PP_SET: u8 = 61;
    pub const PP_HAND: u8 = 62;
    pub const PP_SIDE: u8 = 63;
    pub const PP_PLY: u8 = 64;
    pub const PP_MOVE_FULL: u8 = 65;
    pub const PP_LAST: u8 = 66;
    pub const PP_KING: u8 = 67;
    pub const PP_HANDQ: u8 = 68;
    pub const PP_SINK: u8 = 69;
    pub const PP_CMP: u8 = 70;
    pub const PP_DEBUG: u8 = 71;
    pub const POS_ARB: u8 = 80;
    pub const POS_CLONE: u8 = 81;
    pub const POS_SET: u8 = 82;
    pub const POS_HAND: u8 = 83;
    pub const POS_MOVE_FULL: u8 = 84;
    pub const POS_MOVES: u8 = 85;
    pub const POS_CMP: u8 = 86;
    pub const POS_TEXT: u8 = 87;
    pub const POS_LAST: u8 = 88;
    pub const USI_SQ: u8 = 100;
    pub const USI_PIECE: u8 = 101;
    pub const USI_MOVE: u8 = 102;
    pub const USI_HANDS: u8 = 103;
    pub const USI_COLOR: u8 = 104;
    pub const DEBUG: u8 = 105;
    pub const CMP_SCALAR: u8 = 106;
    pub const CMP_MOVE: u8 = 107;
    pub const MV_INFO: u8 = 108;
    pub const SQ_ALL: u8 = 109;
    pub const PIECE_ALL: u8 = 110;
    pub const INDEX: u8 = 111;
    pub const OPTIONS: u8 = 112;
    pub const BB_RAW: u8 = 120;
    pub const BB_SHIFT: u8 = 121;
    pub const BB_FILE: u8 = 122;
    pub const BB_ITER: u8 = 123;
    pub const BB_SWAPPED: u8 = 124;
    pub const BB_OPS: u8 = 125;
    pub const BB_CMP: u8 = 126;
    pub const HAND_FUNC: u8 = 127;
    pub const HAND_CMP: u8 = 128;
    pub const GAME: u8 = 130;
    pub const PGAME: u8 = 131;
    pub const LEGAL: u8 = 132;
    pub const EXPERIMENTAL: u8 = 133;
}

/// Marks a value that is none of its type's. It is followed by the offending byte.
const INVALID: [u8; 6] = *b"!BAD!\0";

/// Index of the first operation that produced an invalid value.
pub fn first_invalid(t: &[u8]) -> Option<usize> {
    entries(t).iter().position(|e| e.map_or(false, |e| e.windows(INVALID.len()).any(|w| w == INVALID)))
}

/// The transcript's entries; None: not available.
pub fn entries(t: &[u8]) -> Vec<Option<&[u8]>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i + 2 <= t.len() {
        let n = u16::from_le_bytes([t[i], t[i + 1]]) as usize;
        i += 2;
        if n == 0xffff {
            v.push(None);
        } else {
            v.push(Some(&t[i..i + n]));
            i += n;
        }
    }
    v
}

/// The entry, and whether it has an invalid value in it.
#[derive(Default)]
struct Out(Vec<u8>, bool);
impl Out {
    fn b(&mut self, x: u8) {
        self.0.push(x)
    }
    fn flag(&mut self, x: bool) {
        // as stored, so that something else than 0 and 1 shows
        let r = core::hint::black_box(&x);
        let v = unsafe { core::ptr::read_volatile(r as *const bool as *const u8) };
        self.check(v, v <= 1)
    }
    fn check(&mut self, x: u8, ok: bool) {
        if !ok {
            self.1 = true;
            self.0.extend_from_slice(&INVALID);
        }
        self.0.push(x)
    }
    fn w(&mut self, x: u16) {
        self.0.extend_from_slice(&x.to_le_bytes())
    }
    fn n(&mut self, x: usize) {
        self.0.extend_from_slice(&(x as u32).to_le_bytes())
    }
    fn q(&mut self, x: u128) {
        self.0.extend_from_slice(&x.to_le_bytes())
    }
    fn sq(&mut self, s: Square) {
        let v = unsafe { *(&s as *const Square as *const u8) };
        self.check(v, (1..=81).contains(&v))
    }
    fn osq(&mut self, s: Option<Square>) {
        match s {
            Some(s) => self.sq(s),
            None => self.b(0),
        }
    }
    fn color(&mut self, c: Color) {
        let v = unsafe { *(&c as *const Color as *const u8) };
        self.check(v, v == 1 || v == 2)
    }
    fn kind(&mut self, k: PieceKind) {
        let v = unsafe { *(&k as *const PieceKind as *const u8) };
        self.check(v, (1..=14).contains(&v))
    }
    fn okind(&mut self, k: Option<PieceKind>) {
        match k {
            Some(k) => self.kind(k),
            None => self.b(0),
        }
    }
    fn piece(&mut self, p: Piece) {
        let v = unsafe { *(&p as *const Piece as *const u8) };
        self.check(v, v & 15 != 0 && v & 15 != 15 && v >> 4 <= 1)
    }
    fn opiece(&mut self, p: Option<Piece>) {
        match p {
            Some(p) => self.piece(p),
            None => self.b(0),
        }
    }
    fn cm(&mut self, m: CompactMove) {
        let v = unsafe { *(&m as *const CompactMove as *const u16) };
        // the documented layout
        let (to, hi) = (v & 0x7f, (v >> 8) as u8);
        let ok = (1..=81).contains(&to) && if v & 0x80 != 0 { hi & 15 != 0 && hi & 15 != 15 && hi >> 4 <= 1 } else { (1..=81).contains(&(hi & 0x7f)) };
        if !ok {
            self.1 = true;
            self.0.extend_from_slice(&INVALID);
        }
        self.w(v)
    }
    fn ocm(&mut self, m: Option<CompactMove>) {
        match m {
            Some(m) => self.cm(m),
            None => self.w(0),
        }
    }
    fn mv(&mut self, m: Move) {
        match m {
            Move::Normal { from, to, promote } => {
                self.b(0);
                self.sq(from);
                self.sq(to);
                self.flag(promote)
            }
            Move::Drop { piece, to } => {
                self.b(1);
                self.piece(piece);
                self.sq(to)
            }
        }
    }
    fn omv(&mut self, m: Option<Move>) {
        match m {
            Some(m) => self.mv(m),
            None => self.b(0xff),
        }
    }
    /// Members by asking for each square.
    fn bb(&mut self, x: Bitboard) {
        let mut m = 0u128;
        for i in 1..=81 {
            if x.contains(square(i - 1)) {
                m |= 1 << (i - 1);
            }
        }
        let b = m.to_le_bytes();
        self.0.extend_from_slice(&b[..11])
    }
    fn hand(&mut self, h: Hand, compat: bool) {
        for k in 1..=14 {
            if compat {
                self.b(h.Hand_count(kind(k - 1)));
            } else {
                self.b(h.count(kind(k - 1)).unwrap_or(0));
            }
        }
    }
    fn bytes(&mut self, s: &[u8]) {
        self.w(s.len() as u16);
        self.0.extend_from_slice(s)
    }
    fn ordering(&mut self, o: core::cmp::Ordering) {
        self.b(o as i8 as u8)
    }
}

pub fn square(a: u8) -> Square {
    Square::from_u8(a % 81 + 1).unwrap()
}
pub fn kind(a: u8) -> PieceKind {
    PieceKind::from_u8(a % 14 + 1).unwrap()
}
pub fn color(a: u8) -> Color {
    if a % 2 == 0 {
        Color::Black
    } else {
        Color::White
    }
}
pub fn piece(a: u8) -> Piece {
    let a = a % 28;
    Piece::new(kind(a % 14), color(a / 14))
}
/// Three bytes: origin or piece, destination, flags (1: promoting, 2: drop).
fn mv(a: u8, b: u8, c: u8) -> Move {
    if c & 2 != 0 {
        Move::Drop { piece: piece(a), to: square(b) }
    } else {
        Move::Normal { from: square(a), to: square(b), promote: c & 1 != 0 }
    }
}
fn cm(a: u8, b: u8, c: u8) -> CompactMove {
    if c & 2 != 0 {
        CompactMove::drop(piece(a), square(b))
    } else {
        CompactMove::normal(square(a), square(b), c & 1 != 0)
    }
}
fn cm_of(m: Move) -> CompactMove {
    <CompactMove as core::convert::From<Move>>::from(m)
}
fn mv_of(m: CompactMove) -> Move {
    <Move as core::convert::From<CompactMove>>::from(m)
}

/// Accepts `room` bytes in all; a write that does not fit leaves nothing and fails.
struct Sink {
    got: Vec<u8>,
    room: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > self.room {
            return Err(core::fmt::Error);
        }
        self.room -= s.len();
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
fn sink(room: usize) -> Sink {
    Sink { got: Vec::new(), room }
}

/// FNV; only used for comparing two hashes with one another.
#[cfg(feature = "hash")]
struct Fnv(u64);
#[cfg(feature = "hash")]
impl core::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
#[cfg(feature = "hash")]
fn fnv<T: core::hash::Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    core::hash::Hasher::finish(&h)
}

/// Equality, then what the features add; 9 stands for "not in this build" and is skipped by the comparison (see `same`).
macro_rules! compare {
    ($o:expr, $a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        $o.flag(a == b);
        #[cfg(feature = "ord")]
        {
            $o.ordering(a.cmp(b));
            $o.ordering(b.partial_cmp(a).unwrap());
        }
        #[cfg(not(feature = "ord"))]
        $o.0.extend_from_slice(&[9, 9]);
        #[cfg(feature = "hash")]
        $o.flag(fnv(a) == fnv(b));
        #[cfg(not(feature = "hash"))]
        $o.b(9);
    }};
}

/// Length of what `compare!` writes.
pub const CMP_LEN: usize = 4;
/// Operations whose entry consists of `compare!` results only.
pub fn is_compare(code: u8) -> bool {
    matches!(code, op::PP_CMP | op::POS_CMP | op::CMP_SCALAR | op::CMP_MOVE | op::BB_CMP | op::HAND_CMP)
}
/// Whether two entries of the same operation agree, as far as both builds have it.
pub fn same(code: u8, a: Option<&[u8]>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) if is_compare(code) => a.len() == b.len() && a.chunks(CMP_LEN).zip(b.chunks(CMP_LEN)).all(|(x, y)| x.iter().zip(y).enumerate().all(|(i, (p, q))| p == q || (i > 0 && (*p == 9 || *q == 9)))),
        (Some(a), Some(b)) => a == b,
        _ => true,
    }
}

struct Checker<'a> {
    status: PositionStatus,
    legal: Result<(), IllegalMoveKind>,
    moves: &'a [Move],
}
impl LegalityChecker for Checker<'_> {
    #[cfg(feature = "alloc")]
    fn status(&self, _: &Position) -> PositionStatus {
        self.status
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        self.status
    }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> {
        self.legal
    }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool {
        self.legal.is_ok()
    }
    #[cfg(feature = "alloc")]
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> alloc::vec::Vec<Move> {
        self.moves.to_vec()
    }
    fn normal_from_candidates(&self, p: &PartialPosition, from: Square) -> Bitboard {
        p.vacant_bitboard() ^ Bitboard::single(from)
    }
    fn normal_to_candidates(&self, p: &PartialPosition, to: Square, piece: Piece) -> Bitboard {
        p.piece_bitboard(piece) ^ Bitboard::single(to)
    }
    fn drop_candidates(&self, p: &PartialPosition, piece: Piece) -> Bitboard {
        p.vacant_bitboard() ^ p.piece_bitboard(piece)
    }
}

/// A position from `Position_startpos`, created when it is first used.
#[cfg(feature = "alloc")]
struct Pos(core::cell::Cell<*mut Position>);
#[cfg(feature = "alloc")]
impl Pos {
    fn new() -> Pos {
        Pos(core::cell::Cell::new(core::ptr::null_mut()))
    }
    fn at(&self) -> *mut Position {
        if self.0.get().is_null() {
            self.0.set(Position::Position_startpos());
        }
        self.0.get()
    }
    fn get(&self) -> &Position {
        unsafe { &*self.at() }
    }
    fn get_mut(&mut self) -> &mut Position {
        unsafe { &mut *self.at() }
    }
    fn put(&mut self, p: Position) {
        *self.get_mut() = p;
    }
    fn renew(&mut self) {
        *self = Pos::new();
        self.at();
    }
}
#[cfg(feature = "alloc")]
impl Drop for Pos {
    fn drop(&mut self) {
        if !self.0.get().is_null() {
            unsafe { Position::Position_destruct(self.0.get()) }
        }
    }
}

fn start(compat: bool) -> PartialPosition {
    if compat {
        let mut m = core::mem::MaybeUninit::uninit();
        PartialPosition::PartialPosition_startpos(&mut m);
        unsafe { m.assume_init() }
    } else {
        PartialPosition::startpos()
    }
}

/// `write` gets a buffer of the promised size with canaries on both sides.
fn c_text(write: impl FnOnce(*mut u8)) -> Vec<u8> {
    let mut buf = vec![0xa5u8; 16 + 236 + 16];
    write(unsafe { buf.as_mut_ptr().add(16) });
    let n = buf[16..].iter().position(|&b| b == 0).unwrap_or(252);
    let mut v = buf[16..16 + n].to_vec();
    if buf[..16].iter().any(|&b| b != 0xa5) || buf[16 + n + 1..].iter().any(|&b| b != 0xa5) {
        v.extend_from_slice(b"!canary!");
    }
    v
}

fn obs_partial(o: &mut Out, p: &PartialPosition, section: u8, c: bool) {
    match section % 6 {
        0 => {
            o.color(p.side_to_move());
            o.w(p.ply());
            for i in 0..2 {
                o.hand(p.hand_of_a_player(color(i)), c);
            }
            if c {
                o.ocm(p.PartialPosition_last_compact_move().into());
            } else {
                o.ocm(p.last_compact_move());
            }
        }
        1 => {
            for s in 0..81 {
                if c {
                    o.opiece(p.PartialPosition_piece_at(square(s)).into());
                } else {
                    o.opiece(p.piece_at(square(s)));
                }
            }
        }
        2 => {
            o.bb(p.occupied_bitboard());
            o.bb(p.vacant_bitboard());
            for i in 0..2 {
                o.bb(p.player_bitboard(color(i)));
            }
        }
        3 => (0..14).for_each(|k| o.bb(p.piece_kind_bitboard(kind(k)))),
        4 => (0..14).for_each(|k| o.bb(p.piece_bitboard(piece(k)))),
        _ => (14..28).for_each(|k| o.bb(p.piece_bitboard(piece(k)))),
    }
}

#[cfg(feature = "alloc")]
fn obs_position(o: &mut Out, p: &Position, section: u8, c: bool) {
    match section % 5 {
        0 => {
            o.color(p.side_to_move());
            o.w(p.ply());
            for i in 0..2 {
                o.hand(p.hand_of_a_player(color(i)), c);
            }
            if c {
                o.ocm(p.Position_last_compact_move().into());
            } else {
                o.ocm(p.last_compact_move());
            }
        }
        1 => {
            for s in 0..81 {
                if c {
                    o.opiece(p.Position_piece_at(square(s)).into());
                } else {
                    o.opiece(p.piece_at(square(s)));
                }
            }
        }
        2 => {
            o.bb(p.occupied_bitboard());
            o.bb(p.vacant_bitboard());
            for i in 0..2 {
                o.bb(p.player_bitboard(color(i)));
            }
        }
        3 => (0..14).for_each(|k| o.bb(p.piece_bitboard(piece(k)))),
        _ => (14..28).for_each(|k| o.bb(p.piece_bitboard(piece(k)))),
    }
}

/// As the C header's struct lays it out.
fn fields(o: &mut Out, p: &PartialPosition) {
    o.color(p.side_to_move());
    o.w(p.ply());
    for s in 0..81 {
        o.opiece(p.piece_at(square(s)));
    }
    for i in 0..2 {
        o.q(p.player_bitboard(color(i)).to_u128());
    }
    for k in 0..14 {
        o.q(p.piece_kind_bitboard(kind(k)).to_u128());
    }
    o.ocm(p.last_compact_move());
    for i in 0..2 {
        o.osq(p.king_position(color(i)));
    }
}

fn compact_info(o: &mut Out, m: CompactMove, c: bool) {
    o.cm(m);
    if c {
        o.osq(m.CompactMove_from().into());
    } else {
        o.osq(m.from());
    }
    o.sq(m.to());
    o.flag(m.is_promoting());
    o.flag(m.is_drop());
}

/// `init`: positions for PP_INIT. `compat`: through the C interface wherever there is one.
pub fn run(script: &[u8], init: &[PartialPosition], compat: bool) -> Vec<u8> {
    run_checked(script, init, compat).0
}

/// The transcript and the first operation that produced an invalid value.
pub fn run_checked(script: &[u8], init: &[PartialPosition], compat: bool) -> (Vec<u8>, Option<usize>) {
    let c = compat;
    let mut bad = None;
    let mut out = Vec::new();
    let mut bbs = [if c { Bitboard::Bitboard_empty() } else { Bitboard::empty() }; N_BB];
    let mut hands: Vec<Hand> = (0..N_HAND).map(|_| Hand::new()).collect();
    let mut pps: Vec<PartialPosition> = vec![start(c); N_PP];
    #[cfg(feature = "alloc")]
    let mut poss: Vec<Pos> = (0..N_POS).map(|_| Pos::new()).collect();
    let mut pgame = PartialGame::default();
    #[cfg(feature = "alloc")]
    let mut game = Game::default();
    for (at, ins) in script.chunks_exact(8).enumerate() {
        let (code, a, b, d, e, f, g) = (ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], ins[6]);
        let mut o = Out::default();
        let mut available = true;
        match code {
            op::SQ_INFO => {
                let s = square(a);
                o.b(s.index());
                o.b(s.file());
                o.b(s.rank());
                o.sq(s.flip());
                for i in 0..2 {
                    o.b(s.relative_file(color(i)));
                    o.b(s.relative_rank(color(i)));
                }
            }
            op::SQ_NEW => {
                if c {
                    o.osq(Square::Square_new(a, b).into());
                    o.osq(Square::Square_new_relative(a, b, color(d)).into());
                } else {
                    o.osq(Square::new(a, b));
                    o.osq(Square::new_relative(a, b, color(d)));
                }
            }
            op::SQ_FROM_U8 => {
                if c {
                    o.osq(Square::Square_from_u8(a).into());
                } else {
                    o.osq(Square::from_u8(a));
                }
                if (1..=81).contains(&a) {
                    o.sq(unsafe {
                        if c {
                            Square::Square_from_u8_unchecked(a)
                        } else {
                            Square::from_u8_unchecked(a)
                        }
                    });
                }
            }
            op::SQ_SHIFT => {
                if c {
                    o.osq(square(a).Square_shift(b as i8, d as i8).into());
                } else {
                    o.osq(square(a).shift(b as i8, d as i8));
                }
            }
            op::PK_INFO => {
                let k = kind(a);
                if c {
                    o.okind(k.PieceKind_promote().into());
                    o.okind(k.PieceKind_unpromote().into());
                    o.kind(unsafe { PieceKind::PieceKind_from_u8_unchecked(a % 14 + 1) });
                    o.flag(Hand::Hand_is_hand_piece(k));
                } else {
                    o.okind(k.promote());
                    o.okind(k.unpromote());
                    o.kind(unsafe { PieceKind::from_u8_unchecked(a % 14 + 1) });
                    o.flag(Hand::is_hand_piece(k));
                }
            }
            op::PK_FROM_U8 => {
                if c {
                    o.okind(PieceKind::PieceKind_from_u8(a).into());
                } else {
                    o.okind(PieceKind::from_u8(a));
                }
            }
            op::PIECE_INFO => {
                let p = piece(a);
                o.kind(p.piece_kind());
                o.color(p.color());
                if c {
                    o.opiece(p.Piece_promote().into());
                    o.opiece(p.Piece_unpromote().into());
                } else {
                    o.opiece(p.promote());
                    o.opiece(p.unpromote());
                }
            }
            op::PIECE_NEW => {
                if c {
                    o.piece(Piece::Piece_new(kind(a), color(b)));
                } else {
                    o.piece(Piece::new(kind(a), color(b)));
                }
            }
            op::COLOR_INFO => o.color(color(a).flip()),
            op::ENUMS => {
                let r = unsafe { GameResolution::from_u8_unchecked(a % 5 + 1) };
                o.b(r as u8);
                let r = unsafe { IllegalMoveKind::from_u8_unchecked(b % 7 + 1) };
                o.b(r as u8);
            }
            op::CM_NORMAL => compact_info(&mut o, CompactMove::normal(square(a), square(b), d & 1 != 0), c),
            op::CM_DROP => compact_info(&mut o, CompactMove::drop(piece(a), square(b)), c),
            op::BB_CLEAR => bbs[a as usize % N_BB] = if c { Bitboard::Bitboard_empty() } else { Bitboard::empty() },
            op::BB_ADD => {
                let x = &mut bbs[a as usize % N_BB];
                if c {
                    Bitboard::Bitboard_bitor_assign(x, Bitboard::Bitboard_single(square(b)));
                } else {
                    *x |= square(b);
                }
            }
            op::BB_BIN => {
                let (x, y) = (bbs[b as usize % N_BB], bbs[d as usize % N_BB]);
                let r = &mut bbs[a as usize % N_BB];
                match (e % 6, c) {
                    (0, false) => *r = x & y,
                    (1, false) => *r = x | y,
                    (2, false) => *r = x ^ y,
                    (3, false) => *r &= y,
                    (4, false) => *r |= y,
                    (5, false) => *r ^= y,
                    (0, true) => *r = Bitboard::Bitboard_bitand(x, y),
                    (1, true) => *r = Bitboard::Bitboard_bitor(x, y),
                    (2, true) => *r = Bitboard::Bitboard_bitxor(x, y),
                    (3, true) => Bitboard::Bitboard_bitand_assign(r, y),
                    (4, true) => Bitboard::Bitboard_bitor_assign(r, y),
                    _ => Bitboard::Bitboard_bitxor_assign(r, y),
                }
            }
            op::BB_NOT => bbs[a as usize % N_BB] = !bbs[b as usize % N_BB],
            op::BB_FLIP => bbs[a as usize % N_BB] = bbs[b as usize % N_BB].flip(),
            op::BB_POP => {
                let x = &mut bbs[a as usize % N_BB];
                if c {
                    o.osq(x.Bitboard_pop().into());
                } else {
                    o.osq(x.pop());
                }
                o.b((*x).count());
            }
            op::BB_POPALL => {
                let x = &mut bbs[a as usize % N_BB];
                for _ in 0..100 {
                    let s: Option<Square> = if c { x.Bitboard_pop().into() } else { x.pop() };
                    o.osq(s);
                    if s.is_none() {
                        break;
                    }
                }
                o.flag(x.is_empty());
            }
            op::BB_DUMP => {
                let x = bbs[a as usize % N_BB];
                o.bb(x);
                o.b(x.count());
                o.flag(x.is_empty());
            }
            op::BB_LOAD => {
                let p = &pps[b as usize % N_PP];
                bbs[a as usize % N_BB] = match d % 5 {
                    0 => p.occupied_bitboard(),
                    1 => p.vacant_bitboard(),
                    2 => p.player_bitboard(color(e)),
                    3 => p.piece_kind_bitboard(kind(e)),
                    _ => p.piece_bitboard(piece(e)),
                };
            }
            op::HAND_NEW => hands[a as usize % N_HAND] = Hand::new(),
            op::HAND_ADD => {
                let h = &mut hands[a as usize % N_HAND];
                for _ in 0..=d {
                    let ok = if c {
                        h.Hand_add(kind(b))
                    } else {
                        match h.added(kind(b)) {
                            Some(x) => {
                                *h = x;
                                true
                            }
                            None => false,
                        }
                    };
                    o.flag(ok);
                }
            }
            op::HAND_REMOVE => {
                let h = &mut hands[a as usize % N_HAND];
                for _ in 0..=d {
                    let ok = if c {
                        h.Hand_remove(kind(b))
                    } else {
                        match h.removed(kind(b)) {
                            Some(x) => {
                                *h = x;
                                true
                            }
                            None => false,
                        }
                    };
                    o.flag(ok);
                }
            }
            op::HAND_DUMP => o.hand(hands[a as usize % N_HAND], c),
            op::HAND_LOAD => hands[a as usize % N_HAND] = pps[b as usize % N_PP].hand_of_a_player(color(d)),
            op::PP_START => pps[a as usize % N_PP] = start(c),
            op::PP_INIT => match init.get(b as usize % init.len().max(1)) {
                Some(p) => pps[a as usize % N_PP] = p.clone(),
                None => available = false,
            },
            op::PP_COPY => pps[a as usize % N_PP] = pps[b as usize % N_PP].clone(),
            op::PP_MOVE => o.flag(pps[a as usize % N_PP].make_compact_move(cm(b, d, e))),
            op::PP_OBS => obs_partial(&mut o, &pps[a as usize % N_PP], b, c),
            op::PP_SFEN => {
                let p = &pps[a as usize % N_PP];
                if c {
                    o.bytes(&c_text(|q| unsafe { p.to_sfen_c(q) }));
                } else {
                    let mut s = sink(usize::MAX);
                    p.to_sfen(&mut s).unwrap();
                    o.bytes(&s.got);
                }
            }
            op::PP_FIELDS => fields(&mut o, &pps[a as usize % N_PP]),
            op::POS_NEW | op::POS_MOVE | op::POS_OBS | op::POS_SFEN | op::POS_INNER | op::POS_INITIAL | op::POS_ARB | op::POS_CLONE | op::POS_SET | op::POS_HAND | op::POS_MOVE_FULL | op::POS_MOVES | op::POS_CMP | op::POS_TEXT | op::POS_LAST => {
                #[cfg(not(feature = "alloc"))]
                {
                    available = false;
                }
                #[cfg(feature = "alloc")]
                {
                    let i = a as usize % N_POS;
                    match code {
                        op::POS_NEW => {
                            if c {
                                poss[i].renew();
                            } else {
                                poss[i].put(Position::startpos());
                            }
                        }
                        op::POS_MOVE => o.flag(poss[i].get_mut().make_compact_move(cm(b, d, e))),
                        op::POS_OBS => obs_position(&mut o, poss[i].get(), b, c),
                        op::POS_SFEN => {
                            if c {
                                o.bytes(&c_text(|q| unsafe { poss[i].get().to_sfen_c(q) }));
                            } else {
                                o.bytes(poss[i].get().to_sfen_owned().as_bytes());
                            }
                        }
                        op::POS_INNER => pps[b as usize % N_PP] = poss[i].get().inner().clone(),
                        op::POS_INITIAL => pps[b as usize % N_PP] = poss[i].get().initial_position().clone(),
                        op::POS_ARB => poss[i].put(Position::arbitrary_position(pps[b as usize % N_PP].clone())),
                        op::POS_CLONE => {
                            let p = poss[b as usize % N_POS].get().clone();
                            poss[i].put(p);
                        }
                        op::POS_SET => poss[i].get_mut().piece_set(square(b), if d % 29 == 28 { None } else { Some(piece(d)) }),
                        op::POS_HAND => {
                            let h = poss[i].get_mut().hand_of_a_player_mut(color(b));
                            for _ in 0..=e {
                                let r = if f & 1 == 0 { h.added(kind(d)) } else { h.removed(kind(d)) };
                                o.flag(r.is_some());
                                if let Some(r) = r {
                                    *h = r;
                                }
                            }
                        }
                        op::POS_MOVE_FULL => o.flag(poss[i].get_mut().make_move(mv(b, d, e)).is_some()),
                        op::POS_MOVES => {
                            let m = poss[i].get().moves();
                            o.n(m.len());
                            m.iter().for_each(|&m| o.mv(m));
                        }
                        op::POS_CMP => compare!(o, *poss[i].get(), *poss[b as usize % N_POS].get()),
                        op::POS_TEXT => {
                            o.bytes(poss[i].get().inner().to_sfen_owned().as_bytes());
                            for k in 0..28 {
                                o.b(poss[i].get().hand(piece(k)).unwrap_or(0xee));
                            }
                        }
                        _ => o.omv(poss[i].get().last_move()),
                    }
                }
            }
            op::PP_EMPTY => pps[a as usize % N_PP] = PartialPosition::empty(),
            op::PP_SET => pps[a as usize % N_PP].piece_set(square(b), if d % 29 == 28 { None } else { Some(piece(d)) }),
            op::PP_HAND => {
                let h = pps[a as usize % N_PP].hand_of_a_player_mut(color(b));
                for _ in 0..=e {
                    let r = if f & 1 == 0 { h.added(kind(d)) } else { h.removed(kind(d)) };
                    o.flag(r.is_some());
                    if let Some(r) = r {
                        *h = r;
                    }
                }
            }
            op::PP_SIDE => pps[a as usize % N_PP].side_to_move_set(color(b)),
            op::PP_PLY => o.flag(pps[a as usize % N_PP].ply_set(u16::from_le_bytes([b, d]))),
            op::PP_MOVE_FULL => o.flag(pps[a as usize % N_PP].make_move(mv(b, d, e)).is_some()),
            op::PP_LAST => o.omv(pps[a as usize % N_PP].last_move()),
            op::PP_KING => (0..2).for_each(|i| o.osq(pps[a as usize % N_PP].king_position(color(i)))),
            op::PP_HANDQ => (0..28).for_each(|k| o.b(pps[a as usize % N_PP].hand(piece(k)).unwrap_or(0xee))),
            op::PP_SINK => {
                let mut s = sink(b as usize);
                o.flag(pps[a as usize % N_PP].to_sfen(&mut s).is_ok());
                o.bytes(&s.got);
            }
            op::PP_CMP => compare!(o, pps[a as usize % N_PP], pps[b as usize % N_PP]),
            op::PP_DEBUG => {
                let mut s = sink(usize::MAX);
                o.flag(write!(s, "{:?}", pps[a as usize % N_PP]).is_ok());
            }
            op::USI_SQ => {
                let mut s = sink(d as usize);
                o.flag(square(a).to_usi(&mut s).is_ok());
                o.bytes(&s.got);
            }
            op::USI_PIECE => {
                let mut s = sink(d as usize);
                o.flag(piece(a).to_usi(&mut s).is_ok());
                o.flag(kind(b).to_usi(&mut s).is_ok());
                o.bytes(&s.got);
            }
            op::USI_MOVE => {
                let mut s = sink(e as usize);
                o.flag(mv(a, b, d).to_usi(&mut s).is_ok());
                o.flag(cm(a, b, d).to_usi(&mut s).is_ok());
                o.bytes(&s.got);
            }
            op::USI_HANDS => {
                let mut s = sink(d as usize);
                o.flag([hands[a as usize % N_HAND], hands[b as usize % N_HAND]].to_usi(&mut s).is_ok());
                o.bytes(&s.got);
            }
            op::USI_COLOR => {
                let mut s = sink(b as usize);
                o.flag(color(a).to_usi(&mut s).is_ok());
                o.bytes(&s.got);
            }
            op::DEBUG => {
                let mut s = sink(usize::MAX);
                let x = bbs[e as usize % N_BB];
                let r = write!(
                    s,
                    "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                    square(a),
                    piece(b),
                    color(d),
                    mv(a, b, d),
                    cm(a, b, d),
                    x,
                    x.swap_bytes(),
                    hands[f as usize % N_HAND],
                    kind(g)
                );
                o.flag(r.is_ok());
                o.flag(!s.got.is_empty());
            }
            op::CMP_SCALAR => {
                compare!(o, square(a), square(b));
                compare!(o, piece(a), piece(b));
                compare!(o, kind(a), kind(b));
                compare!(o, color(a), color(b));
                compare!(o, OptionSquare::from(Square::from_u8(a)), OptionSquare::from(Square::from_u8(b)));
                compare!(o, OptionPieceKind::from(PieceKind::from_u8(a)), OptionPieceKind::from(PieceKind::from_u8(b)));
                compare!(o, OptionPiece::from(piece(a).promote()), OptionPiece::from(piece(b).promote()));
            }
            op::CMP_MOVE => {
                compare!(o, mv(a, b, d), mv(e, f, g));
                compare!(o, cm(a, b, d), cm(e, f, g));
            }
            op::MV_INFO => {
                let m = mv(a, b, d);
                o.osq(m.from());
                o.sq(m.to());
                o.flag(m.is_promoting());
                o.flag(m.is_drop());
                let k = cm_of(m);
                o.cm(k);
                o.mv(mv_of(k));
                o.mv(mv_of(cm(a, b, d)));
            }
            op::SQ_ALL => {
                Square::all().for_each(|s| o.sq(s));
                PieceKind::all().iter().for_each(|&k| o.kind(k));
                Color::all().iter().for_each(|&k| o.color(k));
                Hand::all_hand_pieces().for_each(|k| o.kind(k));
            }
            op::PIECE_ALL => {
                Piece::all().iter().for_each(|&p| {
                    o.piece(p);
                    o.b(p.as_u8());
                    let (k, col) = p.to_parts();
                    o.kind(k);
                    o.color(col);
                });
            }
            op::INDEX => {
                o.n(square(a).array_index());
                o.n(kind(b).array_index());
                o.n(color(d).array_index());
            }
            op::OPTIONS => {
                let r = unsafe { GameResolution::from_u8_unchecked(a % 5 + 1) };
                let x: OptionGameResolution = if b % 2 == 0 { None } else { Some(r) }.into();
                let y: Option<GameResolution> = x.into();
                o.b(y.map_or(0, |r| r as u8));
                let i = IllegalMoveKind::from_u8(a);
                o.b(i.map_or(0, |k| k as u8));
                let x: ResultUnitIllegalMoveKind = i.into();
                let y: Result<(), IllegalMoveKind> = x.into();
                o.b(y.err().map_or(0, |k| k as u8));
                let x: ResultUnitIllegalMoveKind = y.into();
                let y: Option<IllegalMoveKind> = x.into();
                o.b(y.map_or(0, |k| k as u8));
                let x: OptionCompactMove = if b % 2 == 0 { None } else { Some(cm(a, d, e)) }.into();
                o.ocm(x.into());
                let x: OptionPiece = if b % 2 == 0 { None } else { Some(piece(a)) }.into();
                o.opiece(x.into());
                let x: OptionSquare = if b % 2 == 0 { None } else { Some(square(a)) }.into();
                o.osq(x.into());
                let x: OptionPieceKind = if b % 2 == 0 { None } else { Some(kind(a)) }.into();
                o.okind(x.into());
            }
            op::BB_RAW => {
                let x = bbs[a as usize % N_BB];
                o.q(x.to_u128());
                o.flag(unsafe { Bitboard::from_u128_unchecked(x.to_u128()) } == x);
            }
            op::BB_SHIFT => {
                let x = bbs[b as usize % N_BB];
                let n = e % 10;
                bbs[a as usize % N_BB] = unsafe {
                    match d % 4 {
                        0 => x.shift_down(n),
                        1 => x.shift_up(n),
                        2 => x.shift_left(n),
                        _ => x.shift_right(n),
                    }
                };
            }
            op::BB_FILE => {
                let x = &mut bbs[a as usize % N_BB];
                let n = b % 9 + 1;
                o.w(unsafe { x.get_file_unchecked(n) });
                *x = unsafe { Bitboard::from_file_unchecked(n, u16::from_le_bytes([d, e]) & 0x1ff) };
            }
            op::BB_ITER => {
                let mut x = bbs[a as usize % N_BB];
                let (lo, hi) = x.size_hint();
                o.n(lo);
                o.n(hi.unwrap_or(999));
                o.osq(x.nth(b as usize % 90));
                for s in x {
                    o.sq(s);
                }
            }
            op::BB_SWAPPED => {
                let (x, y) = (bbs[a as usize % N_BB].swap_bytes(), bbs[b as usize % N_BB].swap_bytes());
                for z in [x.or(y), x.and(y), x.xor(y), x.andnot(y)] {
                    o.q(z.to_u128());
                    o.flag(unsafe { ByteSwappedBitboard::from_u128_unchecked(z.to_u128()) } == z);
                }
                o.bb(x.or(y).swap_bytes());
                o.bb(x.andnot(y).swap_bytes());
            }
            op::BB_OPS => {
                let (x, y) = (bbs[a as usize % N_BB], bbs[b as usize % N_BB]);
                for z in [x.or(y), x.and(y), x.xor(y), x.andnot(y), x | &y, &x & y, &x ^ &y, !&x] {
                    o.bb(z);
                }
                let mut z = x;
                z |= &y;
                z ^= &x;
                z &= &y;
                z |= &square(d);
                o.bb(z);
                bbs[d as usize % N_BB] = z;
            }
            op::BB_CMP => {
                compare!(o, bbs[a as usize % N_BB], bbs[b as usize % N_BB]);
                compare!(o, bbs[a as usize % N_BB].swap_bytes(), bbs[b as usize % N_BB].swap_bytes());
            }
            op::HAND_FUNC => {
                let h = &mut hands[a as usize % N_HAND];
                for k in 0..14 {
                    o.b(h.count(kind(k)).unwrap_or(0xee));
                    o.flag(h.added(kind(k)).is_some());
                    o.flag(h.removed(kind(k)).is_some());
                }
            }
            op::HAND_CMP => compare!(o, hands[a as usize % N_HAND], hands[b as usize % N_HAND]),
            op::PGAME => {
                match a % 3 {
                    0 => pgame.resolve(unsafe { GameResolution::from_u8_unchecked(b % 5 + 1) }),
                    1 => pgame.unresolve(),
                    _ => {}
                }
                let r: Option<GameResolution> = if c { pgame.PartialGame_resolution().into() } else { pgame.resolution() };
                o.b(r.map_or(0, |r| r as u8));
                o.w(pgame.position().ply());
                o.flag(pgame == PartialGame::default());
            }
            op::GAME => {
                #[cfg(not(feature = "alloc"))]
                {
                    available = false;
                }
                #[cfg(feature = "alloc")]
                {
                    match a % 4 {
                        0 => game.resolve(unsafe { GameResolution::from_u8_unchecked(b % 5 + 1) }),
                        1 => game.unresolve(),
                        2 => game = game.clone(),
                        _ => {}
                    }
                    let r: Option<GameResolution> = if c { game.Game_resolution().into() } else { game.resolution() };
                    o.b(r.map_or(0, |r| r as u8));
                    o.w(game.position().ply());
                    o.flag(game == Game::default());
                }
            }
            op::LEGAL => {
                #[cfg(not(feature = "alloc"))]
                {
                    available = false;
                }
                #[cfg(feature = "alloc")]
                {
                    let i = a as usize % N_POS;
                    let moves = [mv(b, d, e & 1)];
                    let k = Checker {
                        status: [PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::InProgress, PositionStatus::Invalid][f as usize % 5],
                        legal: IllegalMoveKind::from_u8(g % 9).map_or(Ok(()), Err),
                        moves: &moves,
                    };
                    let p = poss[i].get_mut();
                    let m = mv(b, d, e);
                    o.b(k.is_legal(p, m).err().map_or(0, |x| x as u8));
                    o.flag(k.is_legal_lite(p, m));
                    o.n(k.all_legal_moves(p).len());
                    o.b(k.status_partial(p.inner()) as u8);
                    o.bb(k.normal_from_candidates(p.inner(), square(b)));
                    o.bb(k.normal_to_candidates(p.inner(), square(d), piece(e)));
                    o.bb(k.drop_candidates(p.inner(), piece(e)));
                    // Making a move the position does not take would be the checker's fault: only what it takes.
                    if p.clone().make_move(m).is_some() {
                        o.b(k.make_move(p, m).err().map_or(0, |x| x as u8));
                    }
                }
            }
            op::EXPERIMENTAL => {
                #[cfg(not(feature = "experimental"))]
                {
                    available = false;
                }
                #[cfg(feature = "experimental")]
                {
                    o.n(piece(a).array_index());
                    o.n(Piece::NUM);
                    o.n(PieceKind::option_array_index(PieceKind::from_u8(b)));
                    o.n(PieceKind::OPTION_NUM);
                }
            }
            _ => {}
        }
        if o.1 && bad.is_none() {
            bad = Some(at);
        }
        if available {
            out.extend_from_slice(&(o.0.len() as u16).to_le_bytes());
            out.extend_from_slice(&o.0);
        } else {
            out.extend_from_slice(&[0xff, 0xff]);
        }
    }
    (out, bad)
}

/// Everything that reading alone can tell, for readers that share what they read.
#[cfg(feature = "alloc")]
pub fn read_all(q: &Position, p: &PartialPosition, compat: bool, brief: bool) -> Vec<u8> {
    let mut o = Out::default();
    for x in [p, q.inner(), q.initial_position()].into_iter().take(if brief { 1 } else { 3 }) {
        for s in 0..if brief { 1 } else { 6 } {
            obs_partial(&mut o, x, s, compat);
        }
        fields(&mut o, x);
        o.0.extend_from_slice(x.to_sfen_owned().as_bytes());
        o.0.extend_from_slice(&c_text(|b| unsafe { x.to_sfen_c(b) }));
        o.b((*x == *p) as u8);
    }
    for s in 0..if brief { 1 } else { 5 } {
        obs_position(&mut o, q, s, compat);
    }
    o.0.extend_from_slice(q.to_sfen_owned().as_bytes());
    o.0.extend_from_slice(&c_text(|b| unsafe { q.to_sfen_c(b) }));
    for m in q.moves() {
        o.cm((*m).into());
        o.0.extend_from_slice(m.to_usi_owned().as_bytes());
    }
    for sq in p.occupied_bitboard() {
        o.b(sq.index());
    }
    let mut copy = q.clone();
    o.b((copy == *q) as u8);
    // the copy is this reader's own
    for f in 0..if brief { 9 } else { 81 } {
        let (from, to) = (square(f), square((f as u16 * 7 % 81) as u8));
        o.b(copy.make_move(Move::Normal { from, to, promote: false }).is_some() as u8);
    }
    o.0.extend_from_slice(copy.to_sfen_owned().as_bytes());
    o.0
}
