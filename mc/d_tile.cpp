// C08: tile layout; C10: elimination trees.
#include "ck.h"
extern "C" {
void mc_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
int mc_omp_get_thread_num();
#include "plasma_tree.h"
#define TREE(n) __attribute__((weak)) void plasma_tree_##n(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *)
#define TREEC(n) __attribute__((weak)) void plasma_tree_##n(int, int, int **, int *, int, plasma_sequence_t *, plasma_request_t *)
TREE(flat_ts); TREE(flat_tt); TREE(binary); TREE(greedy); TREEC(auto); TREEC(block_greedy);
#define CONV(p, T) void plasma_omp_##p##ge2desc(T *, int, plasma_desc_t, plasma_sequence_t *, plasma_request_t *); void plasma_omp_##p##desc2ge(plasma_desc_t, T *, int, plasma_sequence_t *, plasma_request_t *); \
 void plasma_omp_##p##pb2desc(T *, int, plasma_desc_t, plasma_sequence_t *, plasma_request_t *); void plasma_omp_##p##desc2pb(plasma_desc_t, T *, int, plasma_sequence_t *, plasma_request_t *); \
 void plasma_omp_##p##tr2desc(T *, int, plasma_desc_t, plasma_sequence_t *, plasma_request_t *); void plasma_omp_##p##desc2tr(plasma_desc_t, T *, int, plasma_sequence_t *, plasma_request_t *); \
 void plasma_omp_##p##gb2desc(T *, int, plasma_desc_t, plasma_sequence_t *, plasma_request_t *);
CONV(s, s_t) CONV(d, d_t) CONV(c, c_t) CONV(z, z_t)
}
using namespace mc;
static bool next(const char *f, ...) {
    char k[240]; va_list ap; va_start(ap, f); vsnprintf(k, sizeof k, f, ap); va_end(ap);
    if (!K.only.empty()) { K.idx++; if (K.only != k) return false; } else if (!K.mine()) return false;
    K.begin(k); return true;
}
namespace {
struct Region { std::function<void()> f; };
void region(void *v) { if (mc_omp_get_thread_num() == 0) ((Region *)v)->f(); }
void in_region(std::function<void()> f) { Region r{f}; mc_GOMP_parallel(region, &r, 0, 0); }
std::string fmt(const char *f, ...) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
enum Kind { GEN, UP, LO, BAND };
bool stored(const plasma_desc_t &A, int m, int n) { return A.type == PlasmaGeneral ? true : A.type == PlasmaUpper ? m <= n : A.type == PlasmaLower ? m >= n : (n - m < A.kut && m - n < A.klt); }
// every tile inside the allocation and disjoint from all others
std::string layout(const plasma_desc_t &A, u64 &tiles, size_t total = 0) {   // total: the storage is not there, but this long
    std::vector<std::pair<char *, char *>> iv; size_t e = plasma_element_size(A.precision); int sm = 0, sn = 0;
    int MT = A.type == PlasmaGeneralBand ? A.mt : A.gmt;
    if (A.type != PlasmaGeneralBand) { for (int m = 0; m < A.gmt; m++) sm += plasma_tile_mmain(A, m); if (sm != A.gm) return fmt("tile heights add up to %d of %d rows", sm, A.gm); }
    for (int n = 0; n < A.gnt; n++) sn += plasma_tile_nmain(A, n); if (sn != A.gn) return fmt("tile widths add up to %d of %d columns", sn, A.gn);
    for (int n = 0; n < A.gnt; n++) for (int m = 0; m < MT; m++) if (stored(A, m, n)) {
        int h = A.type == PlasmaGeneralBand ? plasma_tile_mmain_band(A, m, n) : plasma_tile_mmain(A, m), w = plasma_tile_nmain(A, n);
        char *p = (char *)plasma_tile_addr(A, m, n); tiles++;
        if (h <= 0 || w <= 0) return fmt("tile (%d,%d) is %dx%d", m, n, h, w);
        if (p < (char *)A.matrix || (total ? (size_t)(p - (char *)A.matrix) + (size_t)h * w * e > total : !valid_range(p, (size_t)h * w * e, true))) return fmt("tile (%d,%d), %dx%d, lies outside the storage", m, n, h, w);
        iv.push_back({p, p + (size_t)h * w * e});
    }
    std::sort(iv.begin(), iv.end());
    for (size_t i = 1; i < iv.size(); i++) if (iv[i].first < iv[i - 1].second) return "two tiles overlap";
    return "";
}
std::string view_ok(const plasma_desc_t &A, const plasma_desc_t &B, int i, int j) {
    int sm = 0, sn = 0; bool band = A.type == PlasmaGeneralBand;
    for (int m = 0; m < B.mt; m++) { int v = plasma_tile_mview(B, m); sm += v; if (v <= 0 || (!band && v > plasma_tile_mmain(B, m))) return fmt("tile row %d has %d rows of %d", m, v, plasma_tile_mmain(B, m)); if (!band && plasma_tile_mmain(B, m) != plasma_tile_mmain(A, i / A.mb + m)) return fmt("tile row %d of the submatrix has another height", m); }
    for (int n = 0; n < B.nt; n++) { int v = plasma_tile_nview(B, n); sn += v; if (v <= 0 || v > plasma_tile_nmain(B, n)) return fmt("tile column %d has %d columns of %d", n, v, plasma_tile_nmain(B, n)); if (plasma_tile_nmain(B, n) != plasma_tile_nmain(A, j / A.nb + n)) return fmt("tile column %d of the submatrix has another width", n); }
    if (sm != B.m || sn != B.n) return fmt("the tiles of the submatrix (%d,%d) %dx%d add up to %dx%d", i, j, B.m, B.n, sm, sn);
    if (!band) for (int m = 0; m < B.mt; m++) for (int n = 0; n < B.nt; n++) if (stored(A, m + i / A.mb, n + j / A.nb) && plasma_tile_addr(B, m, n) != plasma_tile_addr(A, m + i / A.mb, n + j / A.nb)) return fmt("tile (%d,%d) of the submatrix (%d,%d) is not the tile of the matrix", m, n, i, j);
    return "";
}
template<class T> struct Conv;
#define CONVT(p, T_) template<> struct Conv<T_> { static constexpr auto ge2 = plasma_omp_##p##ge2desc, pb2 = plasma_omp_##p##pb2desc, tr2 = plasma_omp_##p##tr2desc, gb2 = plasma_omp_##p##gb2desc; static constexpr auto d2ge = plasma_omp_##p##desc2ge, d2pb = plasma_omp_##p##desc2pb, d2tr = plasma_omp_##p##desc2tr; };
CONVT(s, s_t) CONVT(d, d_t) CONVT(c, c_t) CONVT(z, z_t)
template<class T> T *where(const plasma_desc_t &A, int r, int c) {
    int tm = (r + A.i % A.mb) / A.mb, tn = (c + A.j % A.nb) / A.nb; T *p = (T *)plasma_tile_addr(A, tm, tn);
    int ld = A.type == PlasmaGeneralBand ? plasma_tile_mmain_band(A, tm, tn) : plasma_tile_mmain(A, tm);
    return p + (size_t)(c % A.nb) * ld + r % A.mb;
}
u64 rs; u64 rnd() { rs += 0x9e3779b97f4a7c15ull; u64 z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void noise(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((char *)p)[i] = (char)(rnd() >> 33); }
// dense <-> tiles, on a submatrix of a general or triangular matrix; src has padding rows
template<class T> std::string round_trip(plasma_desc_t B, plasma_desc_t whole, int pad, size_t bytes, bool tri) {
    if (!B.m || !B.n) return "";
    int ld = B.m + pad; size_t cnt = (size_t)ld * B.n; T *src = (T *)ualloc(cnt * sizeof(T), "source"), *dst = (T *)ualloc(cnt * sizeof(T), "destination");
    noise(src, cnt * sizeof(T)); noise(dst, cnt * sizeof(T)); noise(whole.matrix, bytes);
    std::vector<char> s0((char *)src, (char *)src + cnt * sizeof(T)), d0((char *)dst, (char *)dst + cnt * sizeof(T)), w0((char *)whole.matrix, (char *)whole.matrix + bytes);
    plasma_sequence_t seq; plasma_request_t rq; plasma_sequence_init(&seq); plasma_request_init(&rq);
    in_region([&] { (tri ? Conv<T>::tr2 : Conv<T>::ge2)(src, ld, B, &seq, &rq); });
    if (seq.status) return fmt("copying into tiles failed with %d", seq.status);
    auto has = [&](int r, int c) { return !tri || stored(B, r / B.mb, c / B.nb); };
    std::set<size_t> mine;
    for (int c = 0; c < B.n; c++) for (int r = 0; r < B.m; r++) if (has(r, c)) { T *w = where<T>(B, r, c); if (memcmp(w, &src[(size_t)c * ld + r], sizeof(T))) return fmt("element (%d,%d) is not in its tile", r, c); mine.insert(((char *)w - (char *)whole.matrix) / sizeof(T)); }
    for (size_t k = 0; k < bytes / sizeof(T); k++) if (!mine.count(k) && memcmp(&w0[k * sizeof(T)], (char *)whole.matrix + k * sizeof(T), sizeof(T))) return fmt("storage element %zu outside the submatrix was written", k);
    if (memcmp(src, s0.data(), s0.size())) return "copying into tiles changed the source";
    std::vector<char> w1((char *)whole.matrix, (char *)whole.matrix + bytes);
    in_region([&] { (tri ? Conv<T>::d2tr : Conv<T>::d2ge)(B, dst, ld, &seq, &rq); });
    if (seq.status) return fmt("copying back failed with %d", seq.status);
    for (int c = 0; c < B.n; c++) for (int r = 0; r < ld; r++) { size_t o = ((size_t)c * ld + r) * sizeof(T); if (r < B.m && has(r, c)) { if (memcmp((char *)dst + o, &s0[o], sizeof(T))) return fmt("element (%d,%d) does not come back", r, c); } else if (memcmp((char *)dst + o, &d0[o], sizeof(T))) return fmt("element (%d,%d) of the destination was written", r, c); }
    if (memcmp(whole.matrix, w1.data(), w1.size())) return "copying back changed the tiles";
    return "";
}
template<class T> std::string band_trip(plasma_desc_t A, int pad, size_t bytes, bool gb) {
    int n = A.n, m = A.m, u = A.uplo, kl = A.kl, ku = A.ku; std::string why; plasma_sequence_t seq; plasma_request_t rq; plasma_sequence_init(&seq); plasma_request_init(&rq);
    memset(A.matrix, 0, bytes);
    if (gb) {   // from a full matrix
        int ld = m + pad; T *src = (T *)ualloc((size_t)ld * n * sizeof(T), "source"); noise(src, (size_t)ld * n * sizeof(T));
        std::vector<char> s0((char *)src, (char *)src + (size_t)ld * n * sizeof(T));
        in_region([&] { Conv<T>::gb2(src, ld, A, &seq, &rq); }); if (seq.status) return fmt("copying into tiles failed with %d", seq.status);
        for (int c = 0; c < n; c++) for (int r = 0; r < m; r++) if (r - c <= kl && c - r <= ku && memcmp(where<T>(A, r, c), &src[(size_t)c * ld + r], sizeof(T))) return fmt("element (%d,%d) is not in its tile", r, c);
        if (memcmp(src, s0.data(), s0.size())) return "copying into tiles changed the source";
        return "";
    }
    int off = u == PlasmaUpper ? ku : u == PlasmaLower ? 0 : ku + kl, top = off, rows = u == PlasmaUpper ? ku + 1 : u == PlasmaLower ? kl + 1 : 2 * kl + ku + 1;
    if (u == PlasmaGeneral) rows = (A.klt + A.kut - 1) * A.nb;
    int ld = rows + pad; size_t cnt = (size_t)ld * n; T *src = (T *)ualloc(cnt * sizeof(T), "source"), *dst = (T *)ualloc(cnt * sizeof(T), "destination"); memset((char *)src, 0, cnt * sizeof(T)); memset((char *)dst, 0, cnt * sizeof(T));
    auto inb = [&](int r, int c) { return u == PlasmaUpper ? r <= c && c - r <= ku : u == PlasmaLower ? r >= c && r - c <= kl : r - c <= kl && c - r <= ku + kl; };
    for (int c = 0; c < n; c++) for (int r = 0; r < m; r++) if (inb(r, c)) noise(&src[(size_t)c * ld + off + r - c], sizeof(T));
    std::vector<char> s0((char *)src, (char *)src + cnt * sizeof(T));
    in_region([&] { Conv<T>::pb2(src, ld, A, &seq, &rq); }); if (seq.status) return fmt("copying into tiles failed with %d", seq.status);
    for (int c = 0; c < n; c++) for (int r = 0; r < m; r++) if (inb(r, c) && memcmp(where<T>(A, r, c), &src[(size_t)c * ld + off + r - c], sizeof(T))) return fmt("band element (%d,%d) is not in its tile", r, c);
    if (memcmp(src, s0.data(), s0.size())) return "copying into tiles changed the source";
    in_region([&] { Conv<T>::d2pb(A, dst, ld, &seq, &rq); }); if (seq.status) return fmt("copying back failed with %d", seq.status);
    for (int c = 0; c < n; c++) for (int r = 0; r < m; r++) if (inb(r, c)) { size_t o = ((size_t)c * ld + off + r - c) * sizeof(T); if (memcmp((char *)dst + o, &s0[o], sizeof(T))) return fmt("band element (%d,%d) does not come back", r, c); }
    (void)top; return why;
}
template<class T> std::string trip(int kind, plasma_desc_t B, plasma_desc_t whole, int pad, size_t bytes) { return kind == BAND ? band_trip<T>(B, pad, bytes, false) : round_trip<T>(B, whole, pad, bytes, kind != GEN); }
std::string trip_p(int prec, int kind, plasma_desc_t B, plasma_desc_t whole, int pad, size_t bytes) {
    return prec == PlasmaRealFloat ? trip<s_t>(kind, B, whole, pad, bytes) : prec == PlasmaRealDouble ? trip<d_t>(kind, B, whole, pad, bytes) : prec == PlasmaComplexFloat ? trip<c_t>(kind, B, whole, pad, bytes) : trip<z_t>(kind, B, whole, pad, bytes);
}
size_t storage(const plasma_desc_t &A) { size_t e = plasma_element_size(A.precision), hi = 0; int MT = A.type == PlasmaGeneralBand ? A.mt : A.gmt;
    for (int n = 0; n < A.gnt; n++) for (int m = 0; m < MT; m++) if (stored(A, m, n)) { int h = A.type == PlasmaGeneralBand ? plasma_tile_mmain_band(A, m, n) : plasma_tile_mmain(A, m); hi = std::max(hi, (size_t)((char *)plasma_tile_addr(A, m, n) - (char *)A.matrix) + (size_t)h * plasma_tile_nmain(A, n) * e); } return hi; }
}
CHECK(C08) {
    containment = true; monitor = false;
    const int PRECS[4] = {PlasmaRealFloat, PlasmaRealDouble, PlasmaComplexFloat, PlasmaComplexDouble};
    auto judge = [&](const char *sig, const std::function<std::string()> &body, const std::string &what) {
        std::string why; rs = base_seed(); Result r = run(sched(2), [&] { plasma_init(); why = body(); plasma_finalize(); });
        K.account(r);
        if (r.out != OK) { K.viol(std::string(sig) + ":" + outcome_name[r.out], r.msg + " for " + what); return false; }
        if (!why.empty()) { K.viol(sig, why + " for " + what); return false; }
        return true;
    };
    int L = K.tier ? 16 : 10, NB = K.tier ? 7 : 5;
    for (int kind = GEN; kind <= LO; kind++) for (int mb = 1; mb <= NB; mb++) for (int nb = 1; nb <= NB; nb++) for (int lm = 0; lm <= L; lm++) for (int ln = 0; ln <= L; ln++) {
        if (kind != GEN && (mb != nb || lm != ln)) continue;
        const char *kn = kind == GEN ? "general" : kind == UP ? "upper" : "lower";
        if (!next("%s mb=%d nb=%d %dx%d", kn, mb, nb, lm, ln)) continue;
        K.interesting(); u64 tiles = 0, views = 0;
        for (int pi = 0; pi < 4; pi++) { int pr = PRECS[pi];
            bool ok = true;
            for (int i0 = -1; ok && i0 <= lm; i0 = i0 < 0 ? 0 : i0 + mb) for (int part = 0; ok && part < (K.tier ? 4 : 2); part++) ok = judge(kn, [&]() -> std::string {   // one run per tile row the submatrices start in, and per residue of the tile column
                plasma_desc_t A; memset(&A, 0, sizeof A);
                int rc = kind == GEN ? plasma_desc_general_create(pr, mb, nb, lm, ln, 0, 0, lm, ln, &A) : plasma_desc_triangular_create(pr, kind == UP ? PlasmaUpper : PlasmaLower, mb, nb, lm, ln, 0, 0, lm, ln, &A);
                if (rc) return fmt("the constructor returned %d", rc);
                std::string w; size_t bytes = storage(A);
                if (i0 < 0) { if (part) { plasma_desc_destroy(&A); return ""; }
                    w = layout(A, tiles); if (!w.empty()) return w;
                    if (lm && ln && kind == GEN && bytes != (size_t)lm * ln * plasma_element_size(pr)) return "the tiles do not fill the storage";
                }
                else for (int i = i0, once = 1; once; once = 0) for (int j = part * nb; j <= ln; j += (K.tier ? 4 : 2) * nb) for (int m = 0; m <= lm - i; m++) for (int n = 0; n <= ln - j; n++) {
                    plasma_desc_t B = plasma_desc_view(A, i, j, m, n); views++;
                    if (!(w = view_ok(A, B, i, j)).empty()) return w;
                    bool whole = i == 0 && j == 0 && m == lm && n == ln;
                    // copies: the matrix, and submatrices up to a size
                    if (kind != GEN ? !whole : (!whole && !(K.tier || m + n <= 9))) continue;
                    if (kind != GEN && !whole) continue;
                    if (!(w = trip_p(pr, kind, B, A, (i + j + m) % 3, bytes)).empty()) return w + fmt(" (submatrix (%d,%d) %dx%d)", i, j, m, n);
                }
                // submatrices that start or end inside a tile: as many tiles as they touch, and the same ones
                if (i0 < 0) for (int i = 0; i <= lm; i++) for (int m = 0; m <= lm - i; m++) for (int j = 0; j <= ln; j += std::max(1, ln)) for (int tr = 0; tr < 2; tr++) {
                    if (tr && lm != ln) break;
                    plasma_desc_t B = tr ? plasma_desc_view(A, 0, i, lm, m) : plasma_desc_view(A, i, 0, m, ln); views++;
                    std::set<int> touched; for (int r = i; r < i + m; r++) touched.insert(r / (tr ? nb : mb));
                    if ((tr ? B.nt : B.mt) != (int)touched.size()) return fmt("the submatrix of %s %d..%d touches %zu tiles, but has %d", tr ? "columns" : "rows", i, i + m - 1, touched.size(), tr ? B.nt : B.mt);
                    if (m && (tr ? B.mt : B.nt) && plasma_tile_addr(B, 0, 0) != plasma_tile_addr(A, tr ? 0 : i / mb, tr ? i / nb : 0) && stored(A, tr ? 0 : i / mb, tr ? i / nb : 0)) return fmt("the first tile of the submatrix of %s %d..%d is another tile", tr ? "columns" : "rows", i, i + m - 1);
                    if (j) break;
                }
                plasma_desc_destroy(&A); return "";
            }, fmt("precision %d", pr));
            if (!ok) break;
        }
        K.extra["tiles"] += tiles; K.extra["submatrices"] += views;
        if (lm == 5 && ln == 5 && mb == 2) K.sample(K.cur + fmt(": %llu tiles, %llu submatrices", (unsigned long long)tiles, (unsigned long long)views));
    }
    // storage beyond 2^31 elements and bytes: the layout alone (the storage is not allocated)
    for (int kind = GEN; kind <= LO; kind++) for (int pr : PRECS) for (int n : {23170, 32769, 46340, 46342, 65535, 65536, 65537, 70001, 92681, 92683, 131072, 185365, 262145}) for (int nb : {256, 1000, 32768, 65536, 200000}) {
        if (n / nb > (K.tier ? 600 : 280)) continue;
        if (!next("huge %s nb=%d n=%d precision %d", kind == GEN ? "general" : kind == UP ? "upper" : "lower", nb, n, pr)) continue;
        K.interesting(); u64 tiles = 0;
        judge("huge", [&]() -> std::string {
            plasma_desc_t A; memset(&A, 0, sizeof A); int uplo = kind == UP ? PlasmaUpper : PlasmaLower; max_request = 0;
            int rc = kind == GEN ? plasma_desc_general_create(pr, nb, nb, n, n, 0, 0, n, n, &A) : plasma_desc_triangular_create(pr, uplo, nb, nb, n, n, 0, 0, n, n, &A);
            size_t e = plasma_element_size(pr), q = n / nb, r = n % nb, elts = kind == GEN ? (size_t)n * n : q * (q + 1) / 2 * nb * nb + (size_t)n * r;
            if (rc != PlasmaErrorOutOfMemory && rc) return fmt("the constructor returned %d", rc);
            if (elts * e > (1ull << 30) ? max_request != elts * e : max_request < elts * e) return fmt("the constructor asked for %llu bytes of %zu", (unsigned long long)max_request, elts * e);
            void *base = (void *)(1ull << 44);
            rc = kind == GEN ? plasma_desc_general_init(pr, base, nb, nb, n, n, 0, 0, n, n, &A) : plasma_desc_triangular_init(pr, uplo, base, nb, nb, n, n, 0, 0, n, n, &A); if (rc) return fmt("the initialization returned %d", rc);
            return layout(A, tiles, elts * e);
        }, "large storage");
        K.extra["tiles"] += tiles;
    }
    int LB = K.tier ? 16 : 10;
    for (int uplo : {(int)PlasmaGeneral, (int)PlasmaUpper, (int)PlasmaLower}) for (int nb = 1; nb <= NB; nb++) for (int n = 1; n <= LB; n++) for (int m = uplo == PlasmaGeneral ? std::max(1, n - 2) : n; m <= (uplo == PlasmaGeneral ? n + 2 : n); m++) {
        if (!next("band %c nb=%d %dx%d", uc(uplo), nb, m, n)) continue;
        K.interesting(); bool ok = true; u64 tiles = 0;
        for (int kl = 0; ok && kl < (uplo == PlasmaUpper ? 1 : m); kl++) for (int ku = 0; ok && ku < (uplo == PlasmaLower ? 1 : n); ku++) for (int gb = 0; ok && gb < (uplo == PlasmaGeneral ? 2 : 1); gb++) {
            int pr = PRECS[(kl + ku) % 4], klt = (uplo == PlasmaUpper ? 0 : (kl + nb - 1) / nb), kut = uplo == PlasmaLower ? 0 : (ku + (uplo == PlasmaGeneral ? kl : 0) + nb - 1) / nb, lm = (klt + kut + 1) * nb;
            ok = judge("band", [&]() -> std::string {
                plasma_desc_t A; memset(&A, 0, sizeof A); int rc = plasma_desc_general_band_create(pr, uplo, nb, nb, lm, n, 0, 0, m, n, kl, ku, &A); if (rc) return fmt("the constructor returned %d", rc);
                std::string w = layout(A, tiles); if (!w.empty()) return w;
                if (!(w = view_ok(A, A, 0, 0)).empty()) return w;
                size_t bytes = (size_t)A.gm * A.gn * plasma_element_size(pr);
                // every element of the band has a stored tile
                for (int c = 0; c < n; c++) for (int r = 0; r < m; r++) { bool in = uplo == PlasmaUpper ? r <= c && c - r <= ku : uplo == PlasmaLower ? r >= c && r - c <= kl : r - c <= kl && c - r <= ku + kl; if (in && !stored(A, r / nb, c / nb)) return fmt("band element (%d,%d) has no tile", r, c); }
                int pad = (kl + ku) % 3;
                w = pr == PlasmaRealFloat ? band_trip<s_t>(A, pad, bytes, gb) : pr == PlasmaRealDouble ? band_trip<d_t>(A, pad, bytes, gb) : pr == PlasmaComplexFloat ? band_trip<c_t>(A, pad, bytes, gb) : band_trip<z_t>(A, pad, bytes, gb);
                plasma_desc_destroy(&A); return w;
            }, fmt("kl=%d ku=%d precision %d%s", kl, ku, pr, gb ? " from a full matrix" : ""));
        }
        K.extra["tiles"] += tiles;
    }
}
// ---------------------------------------------------------------- C10
namespace {
// simulate the elimination; "" if every subdiagonal tile is eliminated exactly once and in a valid order
std::string simulate(int mt, int nt, const int *ops, int nops) {
    int k = std::min(mt, nt); enum { SQ, TRI, GONE }; std::vector<int> st((size_t)mt * std::max(1, k), SQ); auto S = [&](int r, int c) -> int & { return st[(size_t)c * mt + r]; };
    for (int o = 0; o < nops; o++) {
        plasma_enum_t kern; int col, row, piv; int *q = const_cast<int *>(ops); plasma_tree_get_operation(q, o, &kern, &col, &row, &piv);
        std::string at = fmt("operation %d (kernel %d, column %d, row %d, pivot %d): ", o, kern, col, row, piv);
        if (col < 0 || col >= k || row < col || row >= mt) return at + "outside the matrix";
        for (int c = 0; c < col; c++) if (S(row, c) != GONE) return at + fmt("the tile in column %d to the left is still there", c);
        if (kern == PlasmaGeKernel) { if (S(row, col) != SQ) return at + "the tile was triangularized or eliminated before"; S(row, col) = TRI; continue; }
        if (kern != PlasmaTsKernel && kern != PlasmaTtKernel) return at + "unknown kernel";
        if (row == col) return at + "a diagonal tile is eliminated";
        if (piv < col || piv >= row) return at + "the pivot is not above the tile within the remaining rows";
        for (int c = 0; c < col; c++) if (S(piv, c) != GONE) return at + fmt("the pivot's tile in column %d to the left is still there", c);
        if (S(piv, col) != TRI) return at + (S(piv, col) == SQ ? "the pivot is not triangularized" : "the pivot is eliminated");
        if (S(row, col) == GONE) return at + "the tile is eliminated twice";
        if (kern == PlasmaTsKernel && S(row, col) != SQ) return at + "a square-tile kernel meets a triangular tile";
        if (kern == PlasmaTtKernel && S(row, col) != TRI) return at + "a triangular-tile kernel meets a square tile";
        S(row, col) = GONE;
    }
    for (int c = 0; c < k; c++) { if (S(c, c) != TRI) return fmt("diagonal tile %d is not triangularized", c); for (int r = c + 1; r < mt; r++) if (S(r, c) != GONE) return fmt("tile (%d,%d) is not eliminated", r, c); }
    return "";
}
}
CHECK(C10) {
    containment = true; monitor = false;
    auto judge = [&](const char *nm, int mt, int nt, int T, const std::function<void(int **, int *, plasma_sequence_t *, plasma_request_t *)> &f, bool reg) {
        std::string why; int *ops = nullptr, nops = -1; plasma_sequence_t seq; plasma_request_t rq;
        Result r = run(sched(reg ? T : 1), [&] {
            plasma_init(); plasma_sequence_init(&seq); plasma_request_init(&rq);
            if (reg) in_region([&] { f(&ops, &nops, &seq, &rq); }); else f(&ops, &nops, &seq, &rq);
            if (seq.status || rq.status) why = fmt("reported error %d", seq.status);
            else if (!libc_output.empty()) { for (auto &s : libc_output) if (s.find("rror") != std::string::npos && s.find("TUNING") == std::string::npos && s.find("uning") == std::string::npos) why = "printed: " + s; }
            if (why.empty()) why = simulate(mt, nt, ops, nops);
            K.extra["tree_operations"] += nops > 0 ? nops : 0;
            if (ops) lib_free(ops); plasma_finalize();
        });
        K.account(r); K.extra["trees"]++;
        if (r.out != OK) { K.viol(std::string(nm) + ":" + outcome_name[r.out], r.msg + fmt(" for %d threads", T)); return false; }
        if (!why.empty()) { K.viol(nm, why + fmt(" for %d threads", T)); return false; }
        if (r.live || r.lua_live) { K.viol(std::string(nm) + ":leak", r.leaks); return false; }
        return true;
    };
    int L = K.tier ? 80 : 32;
    for (int mt = 1; mt <= L; mt++) for (int nt = 1; nt <= L; nt++) {
        if (!next("tree %dx%d tiles", mt, nt)) continue;
        if (mt > 1) K.interesting(); bool ok = true;
        std::vector<int> ts; for (int t = 1; t <= (K.tier ? 16 : 8); t++) ts.push_back(t);
        for (int t : ts) if (ok) ok = judge("tree", mt, nt, t, [&](int **o, int *n, plasma_sequence_t *s, plasma_request_t *q) { plasma_tree_operations(mt, nt, o, n, s, q); }, true);
        if (plasma_tree_block_greedy) for (int t = 9; ok && t <= (K.tier ? 256 : 64); t += t < 16 ? 1 : t < 48 ? 4 : 16) ok = judge("block_greedy", mt, nt, t, [&](int **o, int *n, plasma_sequence_t *s, plasma_request_t *q) { plasma_tree_block_greedy(mt, nt, o, n, t, s, q); }, false);
        if (mt == 7 && nt == 4) K.sample(K.cur + ": valid for every thread count");
    }
    for (int mt = 1; mt <= L; mt++) for (int nt = 1; nt <= L; nt++) {
        if (!next("other trees %dx%d tiles", mt, nt)) continue;
        if (mt > 1) K.interesting();
#define OTHER(n) if (plasma_tree_##n) judge(#n, mt, nt, 1, [&](int **o, int *k, plasma_sequence_t *s, plasma_request_t *q) { plasma_tree_##n(mt, nt, o, k, s, q); }, false)
        OTHER(flat_ts); OTHER(flat_tt); OTHER(binary); OTHER(greedy);
        if (plasma_tree_auto) for (int t = 1; t <= 16; t++) if (!judge("auto", mt, nt, t, [&](int **o, int *k, plasma_sequence_t *s, plasma_request_t *q) { plasma_tree_auto(mt, nt, o, k, t, s, q); }, false)) break;
    }
}
