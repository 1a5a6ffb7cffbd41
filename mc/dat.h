// Test matrices and residual checks shared by the catalogues.
#pragma once
#include "h.h"
static inline std::vector<int> rng(int a, int b) { std::vector<int> v; for (; a <= b; a++) v.push_back(a); return v; }
template<class T> Mat rounded(const Mat &a) { Mat r = a; for (auto &x : r.a) x = up(mk<T>(x)); return r; }
// lower triangular, real diagonal in [1,2], bandwidth kd
template<class T> Mat chol_factor(Cx &c, int n, int kd = 1 << 20) {
    Mat l(n, n);
    for (int j = 0; j < n; j++) for (int i = j; i < n && i - j <= kd; i++) l(i, j) = i == j ? up(mk<T>(Z(1.5 + 0.5 * c.urand()))) : up(mk<T>(c.uval<T>() * (n > 64 ? 4.0 / std::max(8, std::min(n, kd)) : 0.5)));
    return l;
}
template<class T> Mat hpd(Cx &c, int n, int kind) {
    Mat a;
    if (kind == 0) { Mat l = chol_factor<T>(c, n); a = l * ct(l); }
    else if (kind == 1) { Mat g(n, n); for (auto &x : g.a) x = c.uval<T>(); a = g * ct(g); for (int i = 0; i < n; i++) a(i, i) += 0.5; }
    else { a = Mat(n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { a(i, j) = i == j ? Z(n + 1 - i % 3) : c.uval<T>() * 0.4; a(j, i) = std::conj(a(i, j)); } }
    for (int i = 0; i < n; i++) a(i, i) = a(i, i).real();
    a = rounded<T>(a); return a;
}
template<class T> Mat hpd_band(Cx &c, int n, int kd) { Mat l = chol_factor<T>(c, n, kd); Mat a = rounded<T>(l * ct(l)); for (int i = 0; i < n; i++) a(i, i) = a(i, i).real(); return a; }
template<class T> void resid(Cx &c, const char *nm, const Mat &a, const Mat &x, const Mat &b, double f = 1) { c.near_(nm, a * x, b, Tr<T>::tol(), (1 + a.maxabs()) * (1 + x.maxabs()) * (1 + a.n) * f); }
// kinds: 0 uniform; 1 + q: a permuted dominant diagonal (needs exactly that pivot order) plus noise
template<class T> Mat gen(Cx &c, int m, int n, int kind) {
    Mat a(m, n); for (auto &x : a.a) x = c.uval<T>();
    int k = std::min(m, n);
    if (kind > 0 && k > 0) {
        std::vector<int> p(m); for (int i = 0; i < m; i++) p[i] = i;
        if (kind == 1) std::reverse(p.begin(), p.end());
        else if (kind == 2) std::rotate(p.begin(), p.begin() + 1, p.end());
        else if (kind == 3) std::rotate(p.begin(), p.begin() + m - 1, p.end());
        else if (kind == 5) { for (int i = m - 1; i > 0; i--) std::swap(p[i], p[c.irand(0, i)]); }
        for (int j = 0; j < k; j++) a(p[j], j) = Z(j % 2 ? -(2.0 * k + 1) : 2.0 * k + 1 + j);
    } else if (m == n) for (int j = 0; j < k; j++) { int i = (j * 3 + 1) % k; a(i, j) += a(i, j).real() < 0 ? -1 : 1; }
    return rounded<T>(a);
}
template<class T> Mat gen_band(Cx &c, int m, int n, int kl, int ku, int kind) {
    Mat a(m, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i - j <= kl && j - i <= ku) {
        a(i, j) = c.uval<T>();
        if (i == j) a(i, j) += kind == 0 ? 3.0 : kind == 1 ? 0.7 : 1.0;
        if (kind == 1 && i - j == kl && kl) a(i, j) *= 4.0;     // pivots far below the diagonal
        if (kind == 2 && i == j + 1) a(i, j) *= 3.0;
    }
    return rounded<T>(a);
}
// L unit lower with small entries, U with diagonal in [1,2], pivots random; factors as getrf would leave them
template<class T> Mat lu_factors(Cx &c, int n, int *ipiv) {
    Mat f(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) f(i, j) = i == j ? Z(j % 2 ? 1.5 + 0.5 * c.urand() : -1.5 + 0.5 * c.urand(), Tr<T>::cx ? 0.5 : 0) : c.uval<T>() * (n > 64 ? 8.0 / n : 0.5);
    for (int i = 0; i < n; i++) ipiv[i] = i + 1 + (int)(c.rnd() % (u64)(n - i));
    return rounded<T>(f);
}
static inline Mat lu_product(const Mat &f, const int *ipiv) {
    Mat a = trian(f, PlasmaLower, true) * trian(f, PlasmaUpper, false);
    for (int i = f.n - 1; i >= 0; i--) if (ipiv[i] != i + 1) for (int j = 0; j < f.n; j++) std::swap(a(i, j), a(ipiv[i] - 1, j));
    return a;
}
template<class T> double growth(const Mat &f, const Mat &a) { double g = f.maxabs() / (a.maxabs() + 1e-30); return std::isfinite(g) ? 1 + g : 1; }
template<class T> void wellc(Cx &c, Arr<T> A) { c.fill_uni(A); for (int j = 0; j < std::min(A.m, A.n); j++) A.set(j, j, A.at(j, j) + Z(A.at(j, j).real() < 0 ? -2.0 : 2.0)); }
