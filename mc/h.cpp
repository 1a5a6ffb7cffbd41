#include "h.h"
#include <sys/mman.h>
Mat operator*(const Mat &a, const Mat &b) {
    Mat r(a.m, b.n);
    for (int j = 0; j < b.n; j++) for (int k = 0; k < a.n; k++) {
        double br = b(k, j).real(), bi = b(k, j).imag();
        const Z *ac = &a.a[(size_t)k * a.m]; Z *rc = &r.a[(size_t)j * a.m];
        for (int i = 0; i < a.m; i++) { double x = ac[i].real(), y = ac[i].imag(); rc[i] += Z(x * br - y * bi, x * bi + y * br); }
    }
    return r;
}
Mat operator+(const Mat &a, const Mat &b) { Mat r = a; for (size_t i = 0; i < r.a.size(); i++) r.a[i] += b.a[i]; return r; }
Mat operator-(const Mat &a, const Mat &b) { Mat r = a; for (size_t i = 0; i < r.a.size(); i++) r.a[i] -= b.a[i]; return r; }
static inline Z mul(Z a, Z b) { return Z(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
Mat scale(Z s, const Mat &a) { Mat r = a; for (auto &x : r.a) x = mul(s, x); return r; }
Mat tr(const Mat &a) { Mat r(a.n, a.m); for (int j = 0; j < a.n; j++) for (int i = 0; i < a.m; i++) r(j, i) = a(i, j); return r; }
Mat ct(const Mat &a) { Mat r(a.n, a.m); for (int j = 0; j < a.n; j++) for (int i = 0; i < a.m; i++) r(j, i) = std::conj(a(i, j)); return r; }
Mat cj(const Mat &a) { Mat r = a; for (auto &x : r.a) x = std::conj(x); return r; }
Mat op(const Mat &a, int t) { return t == PlasmaNoTrans ? a : t == PlasmaTrans ? tr(a) : ct(a); }
Mat eye(int m, int n) { Mat r(m, n); for (int i = 0; i < std::min(m, n); i++) r(i, i) = 1; return r; }
Mat sub(const Mat &a, int i0, int j0, int m, int n) { Mat r(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) r(i, j) = a(i0 + i, j0 + j); return r; }
Mat trian(const Mat &a, int uplo, bool unit) {
    Mat r(a.m, a.n);
    for (int j = 0; j < a.n; j++) for (int i = 0; i < a.m; i++) {
        if (i == j) r(i, j) = unit ? Z(1) : a(i, j);
        else if (uplo == PlasmaGeneral || (uplo == PlasmaLower ? i > j : i < j)) r(i, j) = a(i, j);
    }
    return r;
}
Mat herm(const Mat &a, int uplo, bool conj) {
    Mat r(a.m, a.n);
    for (int j = 0; j < a.n; j++) for (int i = 0; i < a.m; i++) {
        if (i == j) r(i, j) = conj ? Z(a(i, j).real()) : a(i, j);
        else if (uplo == PlasmaLower ? i > j : i < j) { r(i, j) = a(i, j); r(j, i) = conj ? std::conj(a(i, j)) : a(i, j); }
    }
    return r;
}
Mat gs_inverse(const Mat &a0, bool *ok) {
    int n = a0.m; Mat a = a0, b = eye(n, n); if (ok) *ok = true;
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i;
        if (std::abs(a(p, k)) == 0) { if (ok) *ok = false; return b; }
        for (int j = 0; j < n; j++) { std::swap(a(k, j), a(p, j)); std::swap(b(k, j), b(p, j)); }
        Z d = Z(1) / a(k, k);
        for (int j = 0; j < n; j++) { a(k, j) = mul(a(k, j), d); b(k, j) = mul(b(k, j), d); }
        for (int i = 0; i < n; i++) if (i != k) { Z f = a(i, k); for (int j = 0; j < n; j++) { a(i, j) -= mul(f, a(k, j)); b(i, j) -= mul(f, b(k, j)); } }
    }
    return b;
}
void jacobi_svd(const Mat &a0, std::vector<double> &s) {
    Mat a = a0.m >= a0.n ? a0 : ct(a0); int m = a.m, n = a.n;
    for (int sweep = 0; sweep < 60; sweep++) {
        double off = 0;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            double al = 0, be = 0; Z g = 0;
            for (int i = 0; i < m; i++) { al += std::norm(a(i, p)); be += std::norm(a(i, q)); g += mul(std::conj(a(i, p)), a(i, q)); }
            double ag = std::abs(g); if (ag == 0) continue;
            if (ag > 1e-16 * std::sqrt(al * be)) off = std::max(off, ag / std::sqrt(al * be));
            double zeta = (be - al) / (2 * ag), t = (zeta >= 0 ? 1 : -1) / (std::abs(zeta) + std::sqrt(1 + zeta * zeta)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
            Z ph = g / ag;
            for (int i = 0; i < m; i++) { Z x = a(i, p), y = mul(a(i, q), std::conj(ph)); a(i, p) = c * x - sn * y; a(i, q) = sn * x + c * y; }
        }
        if (off < 1e-15) break;
    }
    s.clear(); for (int j = 0; j < n; j++) { double v = 0; for (int i = 0; i < m; i++) v += std::norm(a(i, j)); s.push_back(std::sqrt(v)); }
    std::sort(s.rbegin(), s.rend());
}

u64 base_seed() { static u64 v = 0; if (!v) { const char *e = getenv("VERIF_SEED"); v = e ? strtoull(e, nullptr, 10) : 1; v = v ? v : 1; } return v; }
u64 Cx::rnd() { seed += 0x9e3779b97f4a7c15ull; u64 z = seed; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
double Cx::urand() { return (double)(int64_t)(rnd() >> 40) / (double)(1 << 23) - 1.0; }
int Cx::irand(int lo, int hi) { return lo + (int)(rnd() % (u64)(hi - lo + 1)); }
Arr<int> Cx::arr_i(const char *name, int n, bool out_) {
    int *p = (int *)mc::ualloc(sizeof(int) * (n > 0 ? n : 1), name);
    if (n <= 0) mc::uprotect(p, 4, 1);
    bufs.push_back({name, (char *)p, 4, n, 1, n > 0 ? n : 1, out_, {}});
    return Arr<int>{p, n, 1, n > 0 ? n : 1};
}
void Cx::badf(int cat, const char *f, ...) {
    char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (bad.size() < 8) bad.push_back({cat, b});
}
void Cx::start() {
    if (env.raw) return;
    int r = plasma_init();
    if (r != PlasmaSuccess) { if (mode == M_FAULT && r == PlasmaErrorOutOfMemory) { oom = true; return; } badf(RC, "plasma_init returned %d", r); return; }
    plasma_set(PlasmaTuning, env.tune ? PlasmaEnabled : PlasmaDisabled);
    plasma_set(PlasmaNb, env.tune ? env.nb + 1 : env.nb); plasma_set(PlasmaIb, env.tune > 1 ? env.ib + 1 : env.ib);
    plasma_set(PlasmaNumPanelThreads, env.npt); plasma_set(PlasmaHouseholderMode, env.hh);
}
void Cx::save() {
    for (auto &b : bufs) {
        if (!b.huge) { b.orig.assign(b.p, b.p + (size_t)b.ld * std::max(1, b.n) * b.esz); continue; }
        b.orig.clear(); for (int j = 0; j < b.n; j++) b.orig.insert(b.orig.end(), b.p + (size_t)j * b.ld * b.esz, b.p + ((size_t)j * b.ld + b.m) * b.esz);
    }
}
// Per array one region of address space without access; only the pages which hold the columns are opened.  An offset computed
// in 32 bits lands in the inaccessible part.
char *huge_region(int k, int cols, size_t colbytes, size_t stride) {
    const size_t GUARD = 64ull << 30, SIZE = 256ull << 30;
    static char *base[8]; static bool used[8];
    if (k >= 8 || stride * cols > SIZE) return nullptr;
    if (base[k] && used[k]) munmap(base[k], SIZE + 2 * GUARD);
    void *q = mmap(base[k], SIZE + 2 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (base[k] ? MAP_FIXED : 0), -1, 0);
    if (q == MAP_FAILED) { base[k] = nullptr; return nullptr; }
    base[k] = (char *)q; used[k] = true; char *p = base[k] + GUARD;
    for (int j = 0; j < cols; j++) { size_t a = (size_t)j * stride & ~4095ull, e = ((size_t)j * stride + colbytes + 4095) & ~4095ull; if (mprotect(p + a, e - a, PROT_READ | PROT_WRITE)) return nullptr; }
    return p;
}
void Cx::check_inputs(const char *what) {
    for (auto &b : bufs) {
        for (int j = 0; j < b.n; j++) {
            size_t col = (size_t)j * b.ld * b.esz, oc = (size_t)j * b.old() * b.esz;
            if (b.ld > b.m && !b.huge && memcmp(b.p + col + b.m * b.esz, b.orig.data() + col + b.m * b.esz, (b.ld - b.m) * b.esz)) badf(IN, "%s: padding of %s changed", what, b.name.c_str());
            if (!b.out && memcmp(b.p + col, b.orig.data() + oc, b.m * b.esz)) { badf(IN, "%s: input %s changed", what, b.name.c_str()); break; }
        }
    }
}
void Cx::capture(const char *what) {
    for (auto &b : bufs) if (b.out) {
        std::string s; for (int j = 0; j < b.n; j++) s.append(b.p + (size_t)j * b.ld * b.esz, b.m * b.esz);
        outs.push_back({std::string(what) + "." + b.name, s});
    }
}
int Cx::call(const std::function<int()> &f, const char *what) {
    if (oom) return rc = PlasmaErrorOutOfMemory;
    save();
    ncalls++;
    rc = f();
    check_inputs(what);
    outs.push_back({std::string(what) + ".rc", std::to_string(rc)});
    capture(what);
    return rc;
}
double Cx::dcall(const std::function<double()> &f, const char *what) {
    if (oom) return 0;
    save();
    ncalls++;
    double v = f();
    check_inputs(what);
    outv(std::string(what) + ".value", &v, sizeof v);
    return v;
}
bool Cx::want(int got, int expect, const char *what) {
    if (mode == M_FAULT && got == PlasmaErrorOutOfMemory) { oom = true; return false; }
    if (oom) return false;
    if (got != expect) { badf(RC, "%s returned %d, expected %d", what, got, expect); return false; }
    return true;
}
bool Cx::near_(const char *name, const Mat &got, const Mat &ref, double tol, double scl) {
    double s = 1 + ref.maxabs(); if (scl > s) s = scl;
    for (int j = 0; j < ref.n; j++) for (int i = 0; i < ref.m; i++) {
        double e = std::abs(got(i, j) - ref(i, j));
        if (!(e <= tol * s)) { badf(NUM, "%s(%d,%d) = %.9g%+.9gi, expected %.9g%+.9gi", name, i, j, got(i, j).real(), got(i, j).imag(), ref(i, j).real(), ref(i, j).imag()); return false; }
    }
    return true;
}
void Cx::finish() {
    if (env.raw) return;
    plasma_finalize();
}
void Sink::add(const Env &e, const std::function<void(Cx &)> &b, const char *f, ...) {
    char k[240]; va_list ap; va_start(ap, f); vsnprintf(k, sizeof k, f, ap); va_end(ap);
    char t[80]; snprintf(t, sizeof t, " nb%d ib%d%s%s", e.nb, e.ib, e.npt > 1 ? (" pt" + std::to_string(e.npt)).c_str() : "", e.hh == PlasmaTreeHouseholder ? " tree" : "");
    put(Case{std::string(k) + t, e, b});
}
