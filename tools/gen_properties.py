#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })
POS="shogi_core/src/position.rs"; BB="shogi_core/src/bitboard.rs"; MV="shogi_core/src/mv.rs"; SQ="shogi_core/src/square.rs"
PC="shogi_core/src/piece.rs"; PK="shogi_core/src/piece_kind.rs"; HD="shogi_core/src/hand.rs"; CM="shogi_core/src/common.rs"
LG="shogi_core/src/legality.rs"; GR="shogi_core/src/game_resolution.rs"; IM="shogi_core/src/illegal_move_kind.rs"; CO="shogi_core/src/color.rs"
AD="shogi_core/src/annotated_derive.rs"; BR="shogi_core/build.rs"; HDR="include/shogi_core.h"; CL="shogi_core_c/src/lib.rs"; NS="shogi_core_c/src/no_std.rs"; TU="shogi_core/src/to_usi.rs"; LB="shogi_core/src/lib.rs"

prop("C01","Move application: exactly the moves that make sense, with exactly their effect",
"Applying a move to a position succeeds exactly when it makes sense: a board move needs a piece of the player to move on its source square, a destination that is vacant or holds an enemy piece other than a king and, if it promotes, a piece that has a promoted form; a drop needs an unpromoted non-king piece of the player to move, at least one such piece in that player's hand, and a vacant destination. "
"On success the mover's piece (promoted if asked) stands on the destination, the source is vacated, a captured piece joins the mover's hand in unpromoted form (counts modulo 256), a dropped piece leaves the hand, the turn passes to the other player, the ply grows by one (modulo 65536), the move becomes the last move, and nothing else changes. "
"This holds alike for positions with and without a recorded history and for moves given in ordinary or compact form.",
["inputs","histories"],"every position reachable by setting up any board, hands, side to move and ply and by any sequence of moves; every well-formed move",
"The unit tests play four moves from the starting position; the rule ranges over about 15,000 moves in each of an astronomically large set of positions, including promoted captures, hands at 0 and 255, plies at 65535 and kings as targets.",
[POS,HD,PC,PK,MV],[("PartialPosition::make_move",POS),("PartialPosition::make_compact_move",POS),("Position::make_move",POS),("Hand::added / Hand::removed",HD)],
["return value of make_move / make_compact_move","piece_at, hand_of_a_player, side_to_move, ply, last_move after the call"],
[("board, hands, side, ply, last_move","the visible position",POS)])

prop("C02","A rejected move leaves no trace",
"When a move is refused - by a position with or without history, in ordinary or compact form, or by a legality checker that reports it illegal - nothing observable changes: board, hands, side to move, ply, last move, king locations, recorded moves, equality, ordering and hash are what they were. "
"A game into which any number of refused moves is interleaved therefore stays indistinguishable from the same game without them, also after further moves.",
["inputs","histories"],"every position, every move it refuses, every interleaving of refused and accepted moves",
"No existing test applies a refused move at all; refusals arise for a dozen different reasons, some only after part of the work (capture bookkeeping, hand removal) could already have been done.",
[POS,LG],[("early returns before any mutation in PartialPosition::make_move",POS),("Position::make_move pushes only after success",POS),("LegalityChecker::make_move",LG)],
["all accessors before and after a call that returned None / false / Err","moves()"])

prop("C03","All views of the board agree",
"At any time, after any mixture of direct edits and moves, the square-by-square view of a position and its set views tell the same story: for every square and every piece, kind and player, a square belongs to the set of that piece (kind, player) exactly when looking up the square gives such a piece; the occupied and vacant sets are complementary and match; each set view has exactly the right members and size. "
"A position with history and the position without history inside it give the same answers.",
["inputs","histories"],"every sequence of edits (placing, replacing, removing any piece anywhere) and moves, from the empty, the starting and any constructed position",
"Tests look at a few sets of the starting position; the redundant representations are updated incrementally, so a divergence needs particular edit/move sequences.",
[POS,BB],[("PartialPosition::piece_set",POS),("PartialPosition::startpos constants",POS),("player_bitboard / piece_kind_bitboard / piece_bitboard / occupied_bitboard / vacant_bitboard",POS)],
["piece_at vs the bitboard accessors on PartialPosition and Position"],
[("board","per-square pieces",POS),("player_bb","squares per player",POS),("piece_bb","squares per kind",POS)])

prop("C04","King locations follow the board",
"The reported king location of a player is absent when that player has no king on the board; otherwise it is a square on which that player's king stands. "
"It depends only on what is on the board now, not on how the position was reached.",
["inputs","histories"],"every sequence of king placements, removals, overwrites and king moves by either side, mixed with other edits and moves",
"No existing test asks for a king location after the king was moved, removed or overwritten.",
[POS],[("king_square maintenance in PartialPosition::piece_set",POS),("PartialPosition::king_position",POS)],["king_position"],
[("king_square","cached king squares",POS)])

prop("C05","A position with history is its initial position plus its moves",
"A position with history always reports the initial position it was created from, unchanged, and exactly the accepted moves in order; applying those moves one by one to the initial position is accepted throughout and gives exactly the current position. "
"Every question about the current state (side, hands, hand counts, ply, squares, sets, last move, SFEN) is answered as the current position without history would answer it, and cloning yields an independent copy. "
"Creating the standard starting position with history equals creating it from the standard starting position.",
["histories"],"every sequence of accepted and refused moves of any length, in either form, from any initial position",
"Existing tests never compare the history with the state; the divergence may need long histories, captures, or refused moves in between.",
[POS],[("Position::make_move",POS),("Position::moves / initial_position / inner",POS),("Position::arbitrary_position / startpos",POS)],["moves(), initial_position(), inner() and the delegating accessors"],
[("initial, inner, moves","the three parts of a Position",POS)])

prop("C06","Moves conserve pieces",
"Moves never create or destroy pieces: for each kind, counting promoted pieces as the unpromoted kind they came from, the number on the board plus the numbers in both hands stays constant (hand counts being modulo 256), and kings never leave the board. "
"From a standard 40-piece set-up every player therefore keeps at most one king and the totals stay 18 pawns, 4 lances, 4 knights, 4 silvers, 4 golds, 2 bishops, 2 rooks and 2 kings.",
["histories"],"every sequence of accepted and refused moves from any position",
"A conservation law over whole games; the tests contain one capture.",
[POS,HD,PK],[("capture and drop bookkeeping in PartialPosition::make_move",POS),("Hand::added / removed",HD)],["piece set sizes plus hand counts along a game"])

prop("C07","SFEN text is faithful, canonical and the same from every interface",
"The SFEN text of a position is the canonical one: ranks from top to bottom with files 9 to 1, runs of vacant squares as one digit, promoted pieces as '+' and the letter, upper case for Black and lower case for White; then b or w; then the hands (Black before White, each in the order R B G S N L P, a count only when above one, a single '-' when both are empty); then the ply in decimal without leading zeros; single spaces between. "
"Reading it back with an independent parser gives the same board, hands, side and ply, so positions that differ in any of these have different texts. "
"Every way of obtaining the text (to a sink, as an owned string, through the C-style interface, with or without history) gives the same text.",
["inputs","histories"],"every position: any board, any hand counts 0..255, either side, any ply 0..65535",
"Four fixed strings are tested today; the text has to be right for every position, including adjacent vacant runs, three-digit counts and all plies.",
[POS,CM,PC,HD,CO],[("PartialPosition::to_sfen",POS),("impl ToUsi for [Hand; 2]",HD),("write_u8 / write_u16",CM)],["to_sfen, to_sfen_owned, to_sfen_c on PartialPosition and Position"])

prop("C08","SFEN into a C buffer: exact, terminated and never beyond the promised size",
"The C-style SFEN writer stores exactly the SFEN text followed by one NUL byte at the given address and touches no byte before or after. "
"It never stores more than 236 bytes, and never more than 139 for a position that uses at most the 40 pieces of an ordinary set.",
["inputs"],"every position, every buffer address and alignment",
"The C test prints one starting position into an ample buffer; an overrun needs an extreme position and a buffer with nothing behind it.",
[POS],[("to_sfen_c",POS)],["bytes of a buffer that ends at an inaccessible page, and canary bytes around it"])

prop("C09","USI text of squares, pieces, moves, hands and colours is exact",
"The USI text of a square is its file digit and rank letter; of a piece kind or piece its letter (case by player) with '+' if promoted; of a board move its source, destination and '+' if promoting; of a drop the upper-case letter, '*' and the destination, whoever drops; of a pair of hands the SFEN hands field; of a colour b or w. "
"A move's text, read back with the colour of the mover, gives the move again, and a compact move has the text of the move it stands for. "
"The owned-string form always equals what is written to a sink.",
["inputs"],"every square, kind, piece, colour and move, every pair of hands",
"Move text has no test at all, and hands text none on its own; hands range over 256^14 combinations.",
[SQ,PC,PK,MV,HD,CO,TU,CM],[("impl ToUsi for ...",MV)],["to_usi, to_usi_owned"])

prop("C10","Text output fails exactly when the sink fails",
"Writing USI or SFEN text to a caller-supplied sink reports an error exactly when the sink reported one at any point, and reports success otherwise. "
"Whatever the sink had accepted up to its first failure is a prefix of the full text, and on success it is the full text.",
["inputs","fault_sequences"],"every writable type and value, and a sink failing at any byte offset or at any call, permanently or once",
"All tests write to strings, which never fail.",
[TU,CM,POS,HD,MV,SQ,PC,PK,CO],[("`?` propagation in to_usi / to_sfen",POS)],["result of to_usi / to_sfen with a failing fmt::Write sink, bytes accepted by it"])

prop("C11","Compact moves are lossless and follow the documented encoding",
"Converting any move to compact form and back gives the same move, distinct moves have distinct compact forms, and the dedicated constructors give the same compact form as the conversion. "
"The 16-bit value is the documented one (bits 0-6 the destination index, bit 7 set for drops, bits 8-14 the source index or the dropped piece, bit 15 promotion) and is never zero. "
"Source, destination, promotion and drop queries answer alike on both forms, and applying either form to any position has the same outcome.",
["inputs","histories"],"every well-formed move; applied in every position",
"Tests convert each move once; they do not check the encoding, injectivity, the optional wrapper, or that both forms act alike on positions.",
[MV,POS],[("From<Move> for CompactMove and back",MV),("CompactMove::normal / drop / from / to / is_promoting / is_drop",MV),("make_compact_move",POS)],["conversions, accessors, make_move vs make_compact_move"])

prop("C12","Bitboards are exactly sets of squares",
"A bitboard behaves as a set of the 81 squares: the empty set, singletons, membership, size and emptiness are right, and intersection, union, symmetric difference, and-not (complement of the first with the second) and complement are the set operations, in every operator and method form (by value, by reference, assigning, with a single square on the right). "
"Every result is again a valid set (complement is relative to the 81 squares), and conversion to and from the 128-bit integer is lossless.",
["inputs"],"all pairs of subsets of the board",
"Doc examples use single squares; set identities are over 2^81 sets.",
[BB],[("operators and const methods of Bitboard",BB)],["operators, or/and/xor/andnot, count, contains, is_empty, to_u128/from_u128_unchecked"])

prop("C13","Popping and iterating a bitboard visits every member exactly once",
"Popping returns a member and removes exactly that one, or returns nothing and changes nothing when the set is empty; which member comes out depends only on the set. "
"Iterating (and any consumer built on it, such as counting, collecting, folding, skipping) yields every member exactly once, then ends and stays ended; at every point the size hint brackets the number of members left. "
"Iterating a copy does not affect the original.",
["inputs","histories"],"every subset of the board, every interleaving of pops, insertions and iterator calls",
"Tests pop from sets of one and two squares.",
[BB],[("Bitboard::pop",BB),("impl Iterator for Bitboard",BB)],["pop, next, size_hint and iterator adaptors"])

prop("C14","Bitboard shifts, reflection and file access are exact",
"Shifting a set up, down, left or right by 0 to 9 squares moves every member by that many squares in that direction and drops exactly the members that leave the board, giving a valid set. "
"Reflection maps every square to its point reflection (so twice is the identity). "
"A file built from a 9-bit pattern contains exactly the squares of that file selected by the pattern, and reading a file of any set back gives exactly its pattern.",
["inputs"],"every subset of the board, every amount 0..=9, every file and pattern",
"Tests shift two fixed sets (two of the four loops compare the result with itself); an edge bit may leak only for particular squares and amounts.",
[BB],[("shift_up / shift_down / shift_left / shift_right",BB),("flip",BB),("from_file_unchecked / get_file_unchecked",BB)],["results of the geometric functions"])

prop("C15","Byte-swapped bitboards mirror ordinary ones",
"Swapping the bytes of a bitboard reverses the byte order of its 128-bit value, and swapping twice gives the original back. "
"Union, intersection, symmetric difference and and-not on byte-swapped bitboards correspond to the same operation on the originals, and conversion to and from the 128-bit integer is lossless.",
["inputs"],"all pairs of subsets of the board and all 128-bit values",
"The byte-swapped type has no test beyond documentation examples.",
[BB],[("swap_bytes and ByteSwappedBitboard operations",BB)],["swap_bytes, or/and/xor/andnot, to_u128/from_u128_unchecked"])

prop("C16","Square coordinates are consistent",
"A square exists exactly for files and ranks 1 to 9 (and for indices 1 to 81), and its file, rank, index (9*file+rank-9), zero-based index, views from either player's side, named constant and position in the list of all squares agree. "
"Reflection sends file and rank to 10 minus themselves. "
"Shifting by any pair of signed offsets gives the square at the exact sum if that is on the board, and nothing otherwise, for all offsets from -128 to 127.",
["inputs"],"all file/rank bytes, all index bytes, all squares with all offsets",
"Tests leave out offsets of 127, the constants in the separate module, relative construction from out-of-range values and the order of the list of squares.",
[SQ,BR,LB],[("Square::new / new_relative / from_u8 / shift / flip / ...",SQ),("generated constants",BR)],["Square functions and constants"])

prop("C17","Pieces, kinds and colours fit together",
"A piece is a kind and a colour: combining and taking apart are inverse, and the byte value is the kind's number, plus 16 for White. "
"Promotion and unpromotion are inverse where defined, defined exactly for the six promotable kinds and their six promoted forms, and keep the colour; numbers 1 to 14 and only those are kinds. "
"The lists of all kinds, pieces and colours contain each exactly once in their documented order, indices are dense and in that order, the named constants mean what they say, and flipping a colour gives the other one.",
["inputs"],"all kinds, colours, pieces and bytes",
"Tests check round trips but not promotion tables, constants, byte values or the experimental indices.",
[PC,PK,CO,BR],[("Piece::new / to_parts / promote / unpromote / all",PC),("PieceKind::from_u8 / promote / unpromote / array_index / all",PK),("Color::flip / all / array_index",CO)],["the functions and constants of Piece, PieceKind and Color"])

prop("C18","A hand is a multiset of seven kinds",
"For the seven unpromoted non-king kinds, adding one raises that count by one (255 wraps to 0), removing one lowers it by one or is refused at zero, and no other count changes; for every other kind adding, removing and counting are refused and the hand is unchanged. "
"Two hands are equal exactly when all seven counts are, a new hand is empty, and exactly these kinds are reported and listed as hand pieces. "
"The in-place C-style variants do the same and report success truthfully.",
["inputs","histories"],"every sequence of additions and removals of any kinds, any counts 0..255",
"Doc examples cover pawns and one bishop; interference between kinds and boundary counts need sequences.",
[HD],[("Hand::added / removed / count / is_hand_piece / all_hand_pieces",HD),("Hand_add / Hand_remove / Hand_count",HD)],["hand functions"])

prop("C19","Equality, ordering and hashing are coherent for every type",
"For every type, two values are equal exactly when everything observable about them is equal, however they were built; comparing gives a total order that says 'equal' exactly for equal values, all comparison operators agree with it, and equal values hash equally. "
"Values of every type therefore work as keys of ordered and hashed maps, positions and games included, and the optional C-style wrappers compare like the options they stand for.",
["inputs","histories"],"all pairs and triples of values of every exported type; positions built along different paths",
"Tests only use assert_eq on small values; coherence is a relation over pairs and triples, and for positions over construction paths.",
[AD,POS,HD,MV,BB,PK,PC,SQ,GR,IM,CO,LG],[("impl_ord_* / impl_hash_* macros",AD),("manual Ord/Hash for Move",MV),("manual PartialEq for Hand",HD)],["==, cmp, partial_cmp, <, <=, hash, BTreeMap, HashMap"])

prop("C20","The C library does what the C header says",
"A C program compiled against the shipped header and linked with the shared library can call every declared function, and each returns what the corresponding Rust function returns for the same arguments, for values passed by value, through pointers and as optional values (0 meaning none). "
"Games played through the C interface, with and without history, follow the same rules and give the same observations, and nothing outside the objects the caller passed is written.",
["inputs","histories","programs"],"every declared function, every valid argument, every sequence of calls over several objects",
"The C test plays three moves and checks two boards; most exported functions are never called from C.",
[HDR,CL,POS,BB,SQ,PC,PK,HD,MV,GR,IM,CO],[("export_name / no_mangle functions",POS),("generated header",HDR)],["calls through the header's prototypes into the built cdylib"])

prop("C21","The C library built without the standard library is equivalent and memory-safe",
"Built without the standard library, the C library gives the same results as the ordinary build for the same calls. "
"The memory routines it brings along (copy, fill, compare, zero) do exactly what their C standard counterparts do for every length, alignment and content, and write nothing outside the given range. "
"Objects it allocates are properly aligned, never overlap each other, and stay intact while others are created, also when several threads create them at once.",
["inputs","histories","schedules","configurations"],"all call sequences within the arena's capacity, all lengths/alignments/contents, concurrent creation",
"The no_std test links one small program that never calls the memory routines directly and creates a single position.",
[NS,CL,POS],[("memcpy / memset / memcmp / __bzero",NS),("SimpleAllocator",NS)],["the no_std cdylib loaded with dlopen"],
[("ARENA_BSS, remaining","bump allocator state",NS)])

prop("C22","The safe interface never panics and never has undefined behaviour",
"No sequence of safe calls with any arguments (including unsafe calls within their documented preconditions) panics, aborts, overflows, fails an internal assertion, hangs or has undefined behaviour, in builds with and without internal checks. "
"In particular every value handed out is a valid value of its type.",
["inputs","histories","programs"],"every program over the public interface",
"Tests cannot enumerate call sequences, and do not run under a detector of undefined behaviour.",
[POS,BB,SQ,PC,PK,HD,MV,CM,GR,IM],[("unsafe blocks with range arguments",POS),("debug_assert! and unreachable_unchecked",SQ)],["debug-checked build and Miri on generated call sequences"])

prop("C23","The provided legality methods combine their parts as documented",
"For any legality checker, the history-based legality answer is 'game finished' whenever the status is not 'in progress', and otherwise the answer for the current position; the quick yes/no answer and the list of legal moves follow the same rule (no, and an empty list, for finished games). "
"Making a move through a checker returns exactly the legality answer, applies the move exactly when it is legal, and otherwise leaves the position untouched.",
["inputs","histories"],"every checker behaviour (all statuses and answers), every position and move",
"There is no test of these provided methods.",
[LG],[("default methods of LegalityChecker",LG)],["calls recorded by a generated checker, results, position before/after"])

prop("C24","A game record's resolution is exactly what was last set",
"A new game record (with or without history) has no resolution and the starting position; after any sequence of resolving and unresolving, the reported resolution is the last one set, or none after unresolving, through the ordinary and the C-style query alike. "
"Resolving never changes the recorded position, and two records are equal exactly when position and resolution are.",
["histories"],"every sequence of resolve/unresolve operations",
"There is no test of game records.",
[POS,GR],[("Game / PartialGame",POS),("OptionGameResolution",GR)],["resolution, position, equality, ordering, hash"])

prop("C25","The rules are symmetric under swapping the players and turning the board",
"Swapping the two players and turning the board by half a turn commutes with playing: the mirrored move is accepted in the mirrored position exactly when the original is accepted, and the results are mirror images, last move and king locations included. "
"The standard starting position is its own mirror image except for the side to move.",
["inputs","histories"],"every position and every sequence of moves",
"A relation between two whole games; tests play Black-first openings only.",
[POS,SQ,BB,CO,PC],[("colour-dependent branches",POS),("Square::flip / Color::flip / Bitboard::flip",SQ)],["a game and its mirror image run side by side"])

prop("C26","Optional wrappers for C are lossless and use 0 for 'none'",
"For every optional or result type exposed to C, wrapping and unwrapping gives the original back, 'none' (or success) is represented by 0, and every present value by its own nonzero representation. "
"Default values, where provided, mean 'none', and the accepted byte ranges of the checked conversions are exactly the valid ones.",
["inputs"],"all values of all wrapped types, all bytes",
"Only two of the six wrappers have any test.",
[PC,PK,SQ,MV,GR,IM],[("From<Option<T>> for OptionT and back",PC),("From<Result<(), IllegalMoveKind>>",IM)],["conversions and the in-memory representation of the transparent wrappers"])

prop("C27","Behaviour does not depend on build features or profile",
"The same program gives the same observable results whichever features (none, alloc, std, ord, hash, experimental) are enabled and whichever optimisation level, assertion setting, panic strategy or supported compiler is used. "
"Enabling a feature only adds interfaces.",
["configurations","programs"],"all feature sets crossed with build profiles, on generated call sequences",
"The test suite runs in one configuration (all features, unoptimised); other configurations are only compiled.",
[LB,"shogi_core/Cargo.toml",POS,BB,CM],[("cfg(feature = ...) gates",LB)],["transcripts of the same call sequence from differently built drivers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
