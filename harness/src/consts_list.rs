//! Generated by tools/gen_consts.py.
use shogi_core::consts::{piece, square};
use shogi_core::{Piece, Square};

pub const SQUARES: [(Square, Square); 81] = [
    (Square::SQ_1A, square::SQ_1A),
    (Square::SQ_1B, square::SQ_1B),
    (Square::SQ_1C, square::SQ_1C),
    (Square::SQ_1D, square::SQ_1D),
    (Square::SQ_1E, square::SQ_1E),
    (Square::SQ_1F, square::SQ_1F),
    (Square::SQ_1G, square::SQ_1G),
    (Square::SQ_1H, square::SQ_1H),
    (Square::SQ_1I, square::SQ_1I),
    (Square::SQ_2A, square::SQ_2A),
    (Square::SQ_2B, square::SQ_2B),
    (Square::SQ_2C, square::SQ_2C),
    (Square::SQ_2D, square::SQ_2D),
    (Square::SQ_2E, square::SQ_2E),
    (Square::SQ_2F, square::SQ_2F),
    (Square::SQ_2G, square::SQ_2G),
    (Square::SQ_2H, square::SQ_2H),
    (Square::SQ_2I, square::SQ_2I),
    (Square::SQ_3A, square::SQ_3A),
    (Square::SQ_3B, square::SQ_3B),
    (Square::SQ_3C, square::SQ_3C),
    (Square::SQ_3D, square::SQ_3D),
    (Square::SQ_3E, square::SQ_3E),
    (Square::SQ_3F, square::SQ_3F),
    (Square::SQ_3G, square::SQ_3G),
    (Square::SQ_3H, square::SQ_3H),
    (Square::SQ_3I, square::SQ_3I),
    (Square::SQ_4A, square::SQ_4A),
    (Square::SQ_4B, square::SQ_4B),
    (Square::SQ_4C, square::SQ_4C),
    (Square::SQ_4D, square::SQ_4D),
    (Square::SQ_4E, square::SQ_4E),
    (Square::SQ_4F, square::SQ_4F),
    (Square::SQ_4G, square::SQ_4G),
    (Square::SQ_4H, square::SQ_4H),
    (Square::SQ_4I, square::SQ_4I),
    (Square::SQ_5A, square::SQ_5A),
    (Square::SQ_5B, square::SQ_5B),
    (Square::SQ_5C, square::SQ_5C),
    (Square::SQ_5D, square::SQ_5D),
    (Square::SQ_5E, square::SQ_5E),
    (Square::SQ_5F, square::SQ_5F),
    (Square::SQ_5G, square::SQ_5G),
    (Square::SQ_5H, square::SQ_5H),
    (Square::SQ_5I, square::SQ_5I),
    (Square::SQ_6A, square::SQ_6A),
    (Square::SQ_6B, square::SQ_6B),
    (Square::SQ_6C, square::SQ_6C),
    (Square::SQ_6D, square::SQ_6D),
    (Square::SQ_6E, square::SQ_6E),
    (Square::SQ_6F, square::SQ_6F),
    (Square::SQ_6G, square::SQ_6G),
    (Square::SQ_6H, square::SQ_6H),
    (Square::SQ_6I, square::SQ_6I),
    (Square::SQ_7A, square::SQ_7A),
    (Square::SQ_7B, square::SQ_7B),
    (Square::SQ_7C, square::SQ_7C),
    (Square::SQ_7D, square::SQ_7D),
    (Square::SQ_7E, square::SQ_7E),
    (Square::SQ_7F, square::SQ_7F),
    (Square::SQ_7G, square::SQ_7G),
    (Square::SQ_7H, square::SQ_7H),
    (Square::SQ_7I, square::SQ_7I),
    (Square::SQ_8A, square::SQ_8A),
    (Square::SQ_8B, square::SQ_8B),
    (Square::SQ_8C, square::SQ_8C),
    (Square::SQ_8D, square::SQ_8D),
    (Square::SQ_8E, square::SQ_8E),
    (Square::SQ_8F, square::SQ_8F),
    (Square::SQ_8G, square::SQ_8G),
    (Square::SQ_8H, square::SQ_8H),
    (Square::SQ_8I, square::SQ_8I),
    (Square::SQ_9A, square::SQ_9A),
    (Square::SQ_9B, square::SQ_9B),
    (Square::SQ_9C, square::SQ_9C),
    (Square::SQ_9D, square::SQ_9D),
    (Square::SQ_9E, square::SQ_9E),
    (Square::SQ_9F, square::SQ_9F),
    (Square::SQ_9G, square::SQ_9G),
    (Square::SQ_9H, square::SQ_9H),
    (Square::SQ_9I, square::SQ_9I),
];

/// (colour, kind, constants)
pub const PIECES: [(usize, u8, Piece, Piece); 28] = [
    (0, 1, Piece::B_P, piece::B_P),
    (0, 2, Piece::B_L, piece::B_L),
    (0, 3, Piece::B_N, piece::B_N),
    (0, 4, Piece::B_S, piece::B_S),
    (0, 5, Piece::B_G, piece::B_G),
    (0, 6, Piece::B_B, piece::B_B),
    (0, 7, Piece::B_R, piece::B_R),
    (0, 8, Piece::B_K, piece::B_K),
    (0, 9, Piece::B_PP, piece::B_PP),
    (0, 10, Piece::B_PL, piece::B_PL),
    (0, 11, Piece::B_PN, piece::B_PN),
    (0, 12, Piece::B_PS, piece::B_PS),
    (0, 13, Piece::B_PB, piece::B_PB),
    (0, 14, Piece::B_PR, piece::B_PR),
    (1, 1, Piece::W_P, piece::W_P),
    (1, 2, Piece::W_L, piece::W_L),
    (1, 3, Piece::W_N, piece::W_N),
    (1, 4, Piece::W_S, piece::W_S),
    (1, 5, Piece::W_G, piece::W_G),
    (1, 6, Piece::W_B, piece::W_B),
    (1, 7, Piece::W_R, piece::W_R),
    (1, 8, Piece::W_K, piece::W_K),
    (1, 9, Piece::W_PP, piece::W_PP),
    (1, 10, Piece::W_PL, piece::W_PL),
    (1, 11, Piece::W_PN, piece::W_PN),
    (1, 12, Piece::W_PS, piece::W_PS),
    (1, 13, Piece::W_PB, piece::W_PB),
    (1, 14, Piece::W_PR, piece::W_PR),
];
