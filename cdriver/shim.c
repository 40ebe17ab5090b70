/* Interprets the op-scripts of driver/src/vm.rs through the shipped C header and a library opened with dlopen.
   Every function the header declares is looked up under its name and called with the header's prototype. */
#define _GNU_SOURCE
#define DEFINE_ALLOC 1
#define DEFINE_STD 1
#define DEFINE_EXPERIMENTAL 1
#include <shogi_core.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>

#define FUNCTIONS(X) \
    X(Bitboard_bitand) X(Bitboard_bitand_assign) X(Bitboard_bitor) X(Bitboard_bitor_assign) X(Bitboard_bitxor) X(Bitboard_bitxor_assign) \
    X(Bitboard_contains) X(Bitboard_count) X(Bitboard_empty) X(Bitboard_flip) X(Bitboard_is_empty) X(Bitboard_not) X(Bitboard_pop) X(Bitboard_single) \
    X(Color_flip) X(CompactMove_drop) X(CompactMove_from) X(CompactMove_is_drop) X(CompactMove_is_promoting) X(CompactMove_normal) X(CompactMove_to) \
    X(GameResolution_from_u8_unchecked) X(Game_position) X(Game_resolution) X(Game_resolve) X(Game_unresolve) \
    X(Hand_add) X(Hand_count) X(Hand_is_hand_piece) X(Hand_new) X(Hand_remove) X(IllegalMoveKind_from_u8_unchecked) \
    X(PartialGame_position) X(PartialGame_resolution) X(PartialGame_resolve) X(PartialGame_unresolve) \
    X(PartialPosition_hand_of_a_player) X(PartialPosition_last_compact_move) X(PartialPosition_make_compact_move) X(PartialPosition_occupied_bitboard) \
    X(PartialPosition_piece_at) X(PartialPosition_piece_bitboard) X(PartialPosition_piece_kind_bitboard) X(PartialPosition_player_bitboard) \
    X(PartialPosition_ply) X(PartialPosition_side_to_move) X(PartialPosition_startpos) X(PartialPosition_to_sfen_c) X(PartialPosition_vacant_bitboard) \
    X(PieceKind_from_u8) X(PieceKind_from_u8_unchecked) X(PieceKind_promote) X(PieceKind_unpromote) \
    X(Piece_color) X(Piece_new) X(Piece_piece_kind) X(Piece_promote) X(Piece_unpromote) \
    X(Position_destruct) X(Position_hand_of_a_player) X(Position_initial_position) X(Position_inner) X(Position_last_compact_move) \
    X(Position_make_compact_move) X(Position_occupied_bitboard) X(Position_piece_at) X(Position_piece_bitboard) X(Position_player_bitboard) \
    X(Position_ply) X(Position_side_to_move) X(Position_startpos) X(Position_to_sfen_c) X(Position_vacant_bitboard) \
    X(Square_file) X(Square_flip) X(Square_from_u8) X(Square_from_u8_unchecked) X(Square_index) X(Square_new) X(Square_new_relative) \
    X(Square_rank) X(Square_relative_file) X(Square_relative_rank) X(Square_shift)

#define FIELD(f) __typeof__(f) *f;
struct table {
    FUNCTIONS(FIELD)
};
struct lib {
    void *handle;
    struct table t;
};

/* Returns NULL and a message on failure: `kind` 1: the library cannot be opened, 2: a declared function is missing. */
struct lib *shim_open(const char *path, int *kind, char *msg, size_t cap) {
    struct lib *l = calloc(1, sizeof *l);
    l->handle = dlopen(path, RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
    if (!l->handle) {
        *kind = 1;
        snprintf(msg, cap, "%s", dlerror());
        free(l);
        return NULL;
    }
#define LOOKUP(f)                                                      \
    if (!(*(void **)&l->t.f = dlsym(l->handle, #f))) {                 \
        *kind = 2;                                                     \
        snprintf(msg, cap, "the header declares " #f ", but the library does not export it"); \
        dlclose(l->handle);                                            \
        free(l);                                                       \
        return NULL;                                                   \
    }
    FUNCTIONS(LOOKUP)
    return l;
}
void *shim_handle(struct lib *l) { return l->handle; }
/* 0: the library is gone. */
int shim_close(struct lib *l, const char *path) {
    dlclose(l->handle);
    free(l);
    void *h = dlopen(path, RTLD_NOW | RTLD_NOLOAD);
    if (h) {
        dlclose(h);
        return 1;
    }
    return 0;
}
size_t shim_sizeof(int what) {
    switch (what) {
    case 0: return sizeof(PartialPosition);
    case 1: return _Alignof(PartialPosition);
    case 2: return sizeof(Bitboard);
    case 3: return _Alignof(Bitboard);
    case 4: return sizeof(Hand);
    case 5: return sizeof(CompactMove);
    case 6: return sizeof(OptionCompactMove);
    default: return 0;
    }
}

/* What the header's enumerators, macros and types are worth to a C program. */
const char *shim_constant(int i, long *value) {
    static const struct {
        const char *name;
        long value;
    } all[] = {
#define C(x) {#x, (long)(x)},
        C(Black) C(White)
        C(BlackWins) C(WhiteWins) C(Draw) C(Rematch) C(Aborted)
        C(TwoPawns) C(IgnoredCheck) C(DropPawnMate) C(DropStuck) C(NormalStuck) C(GameFinished) C(IncorrectMove)
        C(Pawn) C(Lance) C(Knight) C(Silver) C(Gold) C(Bishop) C(Rook) C(King) C(ProPawn) C(ProLance) C(ProKnight) C(ProSilver) C(ProBishop) C(ProRook)
        C(Color_NUM) C(PieceKind_OPTION_NUM) C(Square_NUM) C(Piece_NUM) C(Hand_NUM_HAND_PIECES)
#define T(t) {#t, sizeof(t) * 10 + ((t)-1 > 0)},
        T(Color) T(GameResolution) T(IllegalMoveKind) T(PieceKind) T(Square) T(OptionSquare) T(CompactMove) T(OptionCompactMove) T(Piece) T(OptionPiece)
        T(OptionGameResolution) T(OptionPieceKind)
    };
    if (i < 0 || i >= (int)(sizeof all / sizeof *all)) return NULL;
    *value = all[i].value;
    return all[i].name;
}

enum { N_PP = 4, N_POS = 3, N_BB = 8, N_HAND = 4, PAD = 32 };
#define GUARDED(T) struct { uint8_t pre[PAD]; T v; uint8_t post[PAD]; }
struct state {
    GUARDED(PartialPosition) pp[N_PP];
    GUARDED(Bitboard) bb[N_BB];
    GUARDED(Hand) hand[N_HAND];
    uint8_t end[PAD];
};
static int intact(const uint8_t *p) {
    for (int i = 0; i < PAD; i++)
        if (p[i] != 0xa5) return 0;
    return 1;
}
static int all_intact(const struct state *s) {
    int ok = intact(s->end);
    for (int i = 0; i < N_PP; i++) ok &= intact(s->pp[i].pre) & intact(s->pp[i].post);
    for (int i = 0; i < N_BB; i++) ok &= intact(s->bb[i].pre) & intact(s->bb[i].post);
    for (int i = 0; i < N_HAND; i++) ok &= intact(s->hand[i].pre) & intact(s->hand[i].post);
    return ok;
}

struct out {
    uint8_t *p;
    size_t n, cap;
};
static void b(struct out *o, unsigned x) {
    if (o->n < o->cap) o->p[o->n] = (uint8_t)x;
    o->n++;
}
static void w(struct out *o, unsigned x) {
    b(o, x & 0xff);
    b(o, x >> 8 & 0xff);
}
static void q(struct out *o, Bitboard x) {
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < 8; k++) b(o, x._0[i] >> (8 * k) & 0xff);
}
/* A bool as it is stored. */
static void flag(struct out *o, bool x) {
    volatile bool y = x;
    b(o, *(volatile uint8_t *)&y);
}

#define F(f) (t->f)
static Square square(const struct table *t, uint8_t a) { return F(Square_from_u8_unchecked)(a % 81 + 1); }
static Color color(uint8_t a) { return a % 2 ? White : Black; }
static PieceKind kind(uint8_t a) { return a % 14 + 1; }
static Piece piece(const struct table *t, uint8_t a) {
    a %= 28;
    return F(Piece_new)(kind(a % 14), color(a / 14));
}
static CompactMove cm(const struct table *t, uint8_t a, uint8_t bb, uint8_t c) {
    if (c & 2) return F(CompactMove_drop)(piece(t, a), square(t, bb));
    return F(CompactMove_normal)(square(t, a), square(t, bb), c & 1);
}
static void members(const struct table *t, struct out *o, Bitboard x) {
    uint8_t m[11] = {0};
    for (int i = 0; i < 81; i++)
        if (F(Bitboard_contains)(x, square(t, i))) m[i / 8] |= 1 << i % 8;
    for (int i = 0; i < 11; i++) b(o, m[i]);
}
static void hand(const struct table *t, struct out *o, Hand h) {
    for (int k = 1; k <= 14; k++) b(o, F(Hand_count)(h, k));
}
static void info(const struct table *t, struct out *o, CompactMove m) {
    w(o, m);
    b(o, F(CompactMove_from)(m));
    b(o, F(CompactMove_to)(m));
    flag(o, F(CompactMove_is_promoting)(m));
    flag(o, F(CompactMove_is_drop)(m));
}
static void text(struct out *o, void (*write)(const void *, uint8_t *), const void *self) {
    uint8_t buf[16 + 236 + 16];
    memset(buf, 0xa5, sizeof buf);
    write(self, buf + 16);
    size_t n = 0;
    while (n < 252 && buf[16 + n]) n++;
    int bad = 0;
    for (int i = 0; i < 16; i++) bad |= buf[i] != 0xa5;
    for (size_t i = 16 + n + 1; i < sizeof buf; i++) bad |= buf[i] != 0xa5;
    w(o, n + (bad ? 8 : 0));
    for (size_t i = 0; i < n; i++) b(o, buf[16 + i]);
    if (bad)
        for (int i = 0; i < 8; i++) b(o, "!canary!"[i]);
}
static _Thread_local const struct table *text_table;
static void text_pp(const void *self, uint8_t *p) { text_table->PartialPosition_to_sfen_c(self, p); }
static void text_pos(const void *self, uint8_t *p) { text_table->Position_to_sfen_c(self, p); }

static void obs_partial(const struct table *t, struct out *o, const PartialPosition *p, uint8_t section) {
    switch (section % 6) {
    case 0:
        b(o, F(PartialPosition_side_to_move)(p));
        w(o, F(PartialPosition_ply)(p));
        for (int i = 0; i < 2; i++) hand(t, o, F(PartialPosition_hand_of_a_player)(p, color(i)));
        w(o, F(PartialPosition_last_compact_move)(p));
        break;
    case 1:
        for (int s = 0; s < 81; s++) b(o, F(PartialPosition_piece_at)(p, square(t, s)));
        break;
    case 2:
        members(t, o, F(PartialPosition_occupied_bitboard)(p));
        members(t, o, F(PartialPosition_vacant_bitboard)(p));
        for (int i = 0; i < 2; i++) members(t, o, F(PartialPosition_player_bitboard)(p, color(i)));
        break;
    case 3:
        for (int k = 0; k < 14; k++) members(t, o, F(PartialPosition_piece_kind_bitboard)(p, kind(k)));
        break;
    case 4:
        for (int k = 0; k < 14; k++) members(t, o, F(PartialPosition_piece_bitboard)(p, piece(t, k)));
        break;
    default:
        for (int k = 14; k < 28; k++) members(t, o, F(PartialPosition_piece_bitboard)(p, piece(t, k)));
    }
}
static void obs_position(const struct table *t, struct out *o, const Position *p, uint8_t section) {
    switch (section % 5) {
    case 0:
        b(o, F(Position_side_to_move)(p));
        w(o, F(Position_ply)(p));
        for (int i = 0; i < 2; i++) hand(t, o, F(Position_hand_of_a_player)(p, color(i)));
        w(o, F(Position_last_compact_move)(p));
        break;
    case 1:
        for (int s = 0; s < 81; s++) b(o, F(Position_piece_at)(p, square(t, s)));
        break;
    case 2:
        members(t, o, F(Position_occupied_bitboard)(p));
        members(t, o, F(Position_vacant_bitboard)(p));
        for (int i = 0; i < 2; i++) members(t, o, F(Position_player_bitboard)(p, color(i)));
        break;
    case 3:
        for (int k = 0; k < 14; k++) members(t, o, F(Position_piece_bitboard)(p, piece(t, k)));
        break;
    default:
        for (int k = 14; k < 28; k++) members(t, o, F(Position_piece_bitboard)(p, piece(t, k)));
    }
}
static void fields(struct out *o, const PartialPosition *p) {
    b(o, p->side);
    w(o, p->ply);
    for (int s = 0; s < 81; s++) b(o, p->board[s]);
    for (int i = 0; i < 2; i++) q(o, p->player_bb[i]);
    for (int k = 0; k < 14; k++) q(o, p->piece_bb[k]);
    w(o, p->last_move);
    for (int i = 0; i < 2; i++) b(o, p->king_square[i]);
}

/* Returns the transcript's length; (size_t)-1: `cap` too small; (size_t)-2 - i: something outside an object was
   written by operation i. */
size_t shim_run(const struct lib *l, const PartialPosition *init, size_t ninit, const uint8_t *script, size_t n, uint8_t *out, size_t cap) {
    const struct table *t = &l->t;
    text_table = t;
    struct state *s = malloc(sizeof *s);
    memset(s, 0xa5, sizeof *s);
    Position *pos[N_POS];
    for (int i = 0; i < N_PP; i++) F(PartialPosition_startpos)(&s->pp[i].v);
    for (int i = 0; i < N_BB; i++) s->bb[i].v = F(Bitboard_empty)();
    for (int i = 0; i < N_HAND; i++) s->hand[i].v = F(Hand_new)();
    for (int i = 0; i < N_POS; i++) pos[i] = F(Position_startpos)();
    struct out all = {out, 0, cap};
    uint8_t scratch[8192];
    size_t ret = 0;
    for (size_t i = 0; i + 8 <= n; i += 8) {
        const uint8_t *ins = script + i;
        uint8_t a = ins[1], c = ins[3], d = ins[4];
        uint8_t x = ins[2];
        struct out buf = {scratch, 0, sizeof scratch}, *o = &buf;
        PartialPosition *pp = &s->pp[a % N_PP].v;
        Bitboard *bb = &s->bb[a % N_BB].v;
        Hand *h = &s->hand[a % N_HAND].v;
        Position **ps = &pos[a % N_POS];
        int available = 1;
        switch (ins[0]) {
        case 0: {
            Square q_ = square(t, a);
            b(o, F(Square_index)(q_));
            b(o, F(Square_file)(q_));
            b(o, F(Square_rank)(q_));
            b(o, F(Square_flip)(q_));
            for (int k = 0; k < 2; k++) {
                b(o, F(Square_relative_file)(q_, color(k)));
                b(o, F(Square_relative_rank)(q_, color(k)));
            }
            break;
        }
        case 1:
            b(o, F(Square_new)(a, x));
            b(o, F(Square_new_relative)(a, x, color(c)));
            break;
        case 2:
            b(o, F(Square_from_u8)(a));
            if (a >= 1 && a <= Square_NUM) b(o, F(Square_from_u8_unchecked)(a));
            break;
        case 3: b(o, F(Square_shift)(square(t, a), (int8_t)x, (int8_t)c)); break;
        case 4:
            b(o, F(PieceKind_promote)(kind(a)));
            b(o, F(PieceKind_unpromote)(kind(a)));
            b(o, F(PieceKind_from_u8_unchecked)(a % 14 + 1));
            flag(o, F(Hand_is_hand_piece)(kind(a)));
            break;
        case 5: b(o, F(PieceKind_from_u8)(a)); break;
        case 6:
            b(o, F(Piece_piece_kind)(piece(t, a)));
            b(o, F(Piece_color)(piece(t, a)));
            b(o, F(Piece_promote)(piece(t, a)));
            b(o, F(Piece_unpromote)(piece(t, a)));
            break;
        case 7: b(o, F(Piece_new)(kind(a), color(x))); break;
        case 8: b(o, F(Color_flip)(color(a))); break;
        case 9:
            b(o, F(GameResolution_from_u8_unchecked)(a % 5 + 1));
            b(o, F(IllegalMoveKind_from_u8_unchecked)(x % 7 + 1));
            break;
        case 10: info(t, o, F(CompactMove_normal)(square(t, a), square(t, x), c & 1)); break;
        case 11: info(t, o, F(CompactMove_drop)(piece(t, a), square(t, x))); break;
        case 12: *bb = F(Bitboard_empty)(); break;
        case 13: F(Bitboard_bitor_assign)(bb, F(Bitboard_single)(square(t, x))); break;
        case 14: {
            Bitboard y = s->bb[x % N_BB].v, z = s->bb[c % N_BB].v;
            switch (d % 6) {
            case 0: *bb = F(Bitboard_bitand)(y, z); break;
            case 1: *bb = F(Bitboard_bitor)(y, z); break;
            case 2: *bb = F(Bitboard_bitxor)(y, z); break;
            case 3: F(Bitboard_bitand_assign)(bb, z); break;
            case 4: F(Bitboard_bitor_assign)(bb, z); break;
            default: F(Bitboard_bitxor_assign)(bb, z);
            }
            break;
        }
        case 15: *bb = F(Bitboard_not)(s->bb[x % N_BB].v); break;
        case 16: *bb = F(Bitboard_flip)(s->bb[x % N_BB].v); break;
        case 17:
            b(o, F(Bitboard_pop)(bb));
            b(o, F(Bitboard_count)(*bb));
            break;
        case 18:
            for (int k = 0; k < 100; k++) {
                OptionSquare q_ = F(Bitboard_pop)(bb);
                b(o, q_);
                if (!q_) break;
            }
            flag(o, F(Bitboard_is_empty)(*bb));
            break;
        case 19:
            members(t, o, *bb);
            b(o, F(Bitboard_count)(*bb));
            flag(o, F(Bitboard_is_empty)(*bb));
            break;
        case 20: {
            const PartialPosition *p = &s->pp[x % N_PP].v;
            switch (c % 5) {
            case 0: *bb = F(PartialPosition_occupied_bitboard)(p); break;
            case 1: *bb = F(PartialPosition_vacant_bitboard)(p); break;
            case 2: *bb = F(PartialPosition_player_bitboard)(p, color(d)); break;
            case 3: *bb = F(PartialPosition_piece_kind_bitboard)(p, kind(d)); break;
            default: *bb = F(PartialPosition_piece_bitboard)(p, piece(t, d));
            }
            break;
        }
        case 21: *h = F(Hand_new)(); break;
        case 22:
            for (int k = 0; k <= c; k++) flag(o, F(Hand_add)(h, kind(x)));
            break;
        case 23:
            for (int k = 0; k <= c; k++) flag(o, F(Hand_remove)(h, kind(x)));
            break;
        case 24: hand(t, o, *h); break;
        case 25: *h = F(PartialPosition_hand_of_a_player)(&s->pp[x % N_PP].v, color(c)); break;
        case 30: F(PartialPosition_startpos)(pp); break;
        case 31:
            if (ninit) *pp = init[x % ninit];
            else available = 0;
            break;
        case 32: {
            PartialPosition tmp = s->pp[x % N_PP].v;
            *pp = tmp;
            break;
        }
        case 33: flag(o, F(PartialPosition_make_compact_move)(pp, cm(t, x, c, d))); break;
        case 34: obs_partial(t, o, pp, x); break;
        case 35: text(o, text_pp, pp); break;
        case 36: fields(o, pp); break;
        case 40:
            F(Position_destruct)(*ps);
            *ps = F(Position_startpos)();
            break;
        case 41: flag(o, F(Position_make_compact_move)(*ps, cm(t, x, c, d))); break;
        case 42: obs_position(t, o, *ps, x); break;
        case 43: text(o, text_pos, *ps); break;
        case 44: s->pp[x % N_PP].v = *F(Position_inner)(*ps); break;
        case 45: s->pp[x % N_PP].v = *F(Position_initial_position)(*ps); break;
        default: available = 0;
        }
        if (!available) {
            w(&all, 0xffff);
        } else {
            w(&all, buf.n);
            for (size_t k = 0; k < buf.n && k < sizeof scratch; k++) b(&all, scratch[k]);
        }
        if (!all_intact(s)) {
            ret = (size_t)-2 - i / 8;
            break;
        }
    }
    for (int i = 0; i < N_POS; i++) F(Position_destruct)(pos[i]);
    free(s);
    if (ret) return ret;
    return all.n > cap ? (size_t)-1 : all.n;
}

/* Game records made by the caller, driven through the header's prototypes. Two bytes per step: what, value. */
size_t shim_games(const struct lib *l, Game *g, PartialGame *p, const uint8_t *script, size_t n, uint8_t *out, size_t cap) {
    const struct table *t = &l->t;
    struct out o_ = {out, 0, cap}, *o = &o_;
    for (size_t i = 0; i + 2 <= n; i += 2) {
        GameResolution r = F(GameResolution_from_u8_unchecked)(script[i + 1] % 5 + 1);
        switch (script[i] % 4) {
        case 0: F(Game_resolve)(g, r); break;
        case 1: F(Game_unresolve)(g); break;
        case 2: F(PartialGame_resolve)(p, r); break;
        default: F(PartialGame_unresolve)(p);
        }
        b(o, F(Game_resolution)(g));
        b(o, F(PartialGame_resolution)(p));
        const Position *gp = F(Game_position)(g);
        const PartialPosition *pp = F(PartialGame_position)(p);
        w(o, F(Position_ply)(gp));
        w(o, F(PartialPosition_ply)(pp));
        b(o, F(PartialPosition_piece_at)(pp, square(t, script[i])));
        b(o, F(Position_piece_at)(gp, square(t, script[i])));
    }
    return o->n > cap ? (size_t)-1 : o->n;
}

/* Creates, plays on and destructs positions. */
void shim_cycle(const struct lib *l, size_t rounds, const uint8_t *moves, size_t n) {
    const struct table *t = &l->t;
    for (size_t r = 0; r < rounds; r++) {
        Position *p = F(Position_startpos)();
        for (size_t i = 0; i + 3 <= n; i += 3) F(Position_make_compact_move)(p, cm(t, moves[i], moves[i + 1], moves[i + 2]));
        F(Position_destruct)(p);
    }
}

/* Threads that create positions and play at once. Each position's address goes to addr[thread * per + k]; afterwards
   each thread's own positions must still say what was played on them (thread- and index-dependent). */
struct job {
    const struct lib *l;
    pthread_barrier_t *bar;
    Position **pos;
    int per, id, nmoves;
    const uint8_t *moves;
    int bad;
};
static int moves_of(const struct job *j, int k) { return (j->id * 7 + k * 3) % (j->nmoves + 1); }
static void *work(void *arg) {
    struct job *j = arg;
    const struct table *t = &j->l->t;
    pthread_barrier_wait(j->bar);
    for (int k = 0; k < j->per; k++) {
        /* one that comes and goes in between */
        Position *gone = k % 2 ? F(Position_startpos)() : NULL;
        j->pos[k] = F(Position_startpos)();
        if (gone) F(Position_destruct)(gone);
        int m = moves_of(j, k);
        for (int i = 0; i < m; i++)
            if (!F(Position_make_compact_move)(j->pos[k], cm(t, j->moves[3 * i], j->moves[3 * i + 1], j->moves[3 * i + 2]))) j->bad |= 1;
    }
    pthread_barrier_wait(j->bar);
    for (int k = 0; k < j->per; k++) {
        PartialPosition want;
        F(PartialPosition_startpos)(&want);
        const PartialPosition *first = F(Position_initial_position)(j->pos[k]);
        for (int s = 0; s < 81; s++)
            if (F(PartialPosition_piece_at)(first, square(t, s)) != F(PartialPosition_piece_at)(&want, square(t, s))) j->bad |= 2;
        int m = moves_of(j, k);
        for (int i = 0; i < m; i++) F(PartialPosition_make_compact_move)(&want, cm(t, j->moves[3 * i], j->moves[3 * i + 1], j->moves[3 * i + 2]));
        for (int s = 0; s < 81; s++)
            if (F(Position_piece_at)(j->pos[k], square(t, s)) != F(PartialPosition_piece_at)(&want, square(t, s))) j->bad |= 4;
        if (F(Position_ply)(j->pos[k]) != F(PartialPosition_ply)(&want)) j->bad |= 8;
        if (F(Position_last_compact_move)(j->pos[k]) != F(PartialPosition_last_compact_move)(&want)) j->bad |= 16;
    }
    return NULL;
}
int shim_threads(const struct lib *l, int threads, int per, const uint8_t *moves, int nmoves, uintptr_t *addr) {
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, threads);
    pthread_t id[64];
    struct job job[64];
    int bad = 0;
    for (int i = 0; i < threads; i++) {
        job[i] = (struct job){l, &bar, calloc(per, sizeof(Position *)), per, i, nmoves, moves, 0};
        pthread_create(&id[i], NULL, work, &job[i]);
    }
    for (int i = 0; i < threads; i++) {
        pthread_join(id[i], NULL);
        bad |= job[i].bad;
        for (int k = 0; k < per; k++) {
            addr[i * per + k] = (uintptr_t)job[i].pos[k];
            l->t.Position_destruct(job[i].pos[k]);
        }
        free(job[i].pos);
    }
    pthread_barrier_destroy(&bar);
    return bad;
}

/* Threads that ask the library's allocator for blocks at once (through the hook). */
typedef uint8_t *alloc_fn(size_t, size_t);
struct ajob {
    alloc_fn *f;
    pthread_barrier_t *bar;
    size_t size, align;
    int count;
    uint8_t **out;
};
static void *awork(void *arg) {
    struct ajob *j = arg;
    pthread_barrier_wait(j->bar);
    for (int k = 0; k < j->count; k++) j->out[k] = j->f(j->size, j->align);
    return NULL;
}
void shim_alloc_threads(alloc_fn *f, int threads, const size_t *size, const size_t *align, int count, uintptr_t *addr) {
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, threads);
    pthread_t id[64];
    struct ajob job[64];
    for (int i = 0; i < threads; i++) {
        job[i] = (struct ajob){f, &bar, size[i], align[i], count, (uint8_t **)(addr + (size_t)i * count)};
        pthread_create(&id[i], NULL, awork, &job[i]);
    }
    for (int i = 0; i < threads; i++) pthread_join(id[i], NULL);
    pthread_barrier_destroy(&bar);
}

/* Threads that allocate, resize and give back blocks at once (through the hook). Every live block carries its owner's
   pattern. Bits of the result: 1 a live block's content changed, 2 a resized block lost its content, 4 a block is misaligned. */
typedef uint8_t *realloc_fn(uint8_t *, size_t, size_t, size_t);
typedef void dealloc_fn(uint8_t *, size_t, size_t);
struct cjob {
    alloc_fn *alloc;
    realloc_fn *re;
    dealloc_fn *de;
    pthread_barrier_t *bar;
    uint64_t seed;
    size_t max;
    int ops, id, bad;
};
struct cblock {
    uint8_t *p;
    size_t n, a;
    uint8_t fill;
};
static int whole(const struct cblock *b, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (b->p[i] != b->fill) return 0;
    return 1;
}
static void *cwork(void *arg) {
    struct cjob *j = arg;
    struct cblock live[8];
    int n = 0;
    uint64_t x = j->seed | 1;
    pthread_barrier_wait(j->bar);
    for (int k = 0; k < j->ops && !j->bad; k++) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsigned r = x >> 20 & 15;
        size_t size = 1 + (x >> 24) % j->max, a = (size_t)1 << (x >> 50) % 5;
        if (n < 8 && (n == 0 || r < 8)) {
            uint8_t *p = j->alloc(size, a);
            if (!p) continue;
            if ((uintptr_t)p % a) j->bad |= 4;
            live[n] = (struct cblock){p, size, a, (uint8_t)(j->id * 29 + k * 7 + 1)};
            memset(p, live[n].fill, size);
            n++;
        } else {
            int w = r < 11 ? n - 1 : (int)((x >> 56) % (unsigned)n);
            struct cblock *b = &live[w];
            if (!whole(b, b->n)) j->bad |= 1;
            if (r < 14) {
                j->de(b->p, b->n, b->a);
                *b = live[--n];
            } else {
                uint8_t *p = j->re(b->p, b->n, b->a, size);
                if (!p) continue;
                if ((uintptr_t)p % b->a) j->bad |= 4;
                b->p = p;
                if (!whole(b, b->n < size ? b->n : size)) j->bad |= 2;
                b->n = size;
                memset(p, b->fill, size);
            }
        }
    }
    for (int i = 0; i < n; i++)
        if (!whole(&live[i], live[i].n)) j->bad |= 1;
    return NULL;
}
int shim_churn_threads(alloc_fn *al, realloc_fn *re, dealloc_fn *de, int threads, uint64_t seed, size_t max, int ops) {
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, threads);
    pthread_t id[64];
    struct cjob job[64];
    int bad = 0;
    for (int i = 0; i < threads; i++) {
        job[i] = (struct cjob){al, re, de, &bar, seed * 0x9e3779b97f4a7c15u + i * 0xd1342543de82ef95u, max, ops, i, 0};
        pthread_create(&id[i], NULL, cwork, &job[i]);
    }
    for (int i = 0; i < threads; i++) {
        pthread_join(id[i], NULL);
        bad |= job[i].bad;
    }
    pthread_barrier_destroy(&bar);
    return bad;
}

/* A no_std library built by a recent compiler refers to this; it is never called, as nothing unwinds. */
void rust_eh_personality(void) { abort(); }
