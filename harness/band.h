// General band storage with room for fill (ld >= kl+ku+... rows), and the product of its factors.
#pragma once
#include "core.h"
namespace {
struct Band { Mat A; int m, n, kl, ku, nb; T &at(int i, int j) { return A(kl + ku + i - j, j); } T was(int i, int j) { return A.was(kl + ku + i - j, j); } };
[[maybe_unused]] static Band newband(Ctx &c, int m, int n, int kl, int ku) {
    Band b; b.m = m; b.n = n; b.kl = kl; b.ku = ku; b.nb = c.cfg.nb; int nb = b.nb;
    int rows = ((ku + kl + nb - 1) / nb + (kl + nb - 1) / nb + 1) * nb;
    b.A = newmat(c, "AB", rows, n); b.A.b->rows = rows;
    // entries of the matrix which the factors can fill are zero and belong to the routine; the rest of the array is foreign
    for (int j = 0; j < n; j++) for (int r = 0; r < std::min(rows, 2 * kl + ku + nb); r++) { int i = j + r - kl - ku; if (i >= 0 && i < m) { b.A(r, j) = T(0); b.A.out(r, j); } }
    return b;
}
// product of the factors left in the band array (multipliers are not moved by later panels' interchanges)
template<class M, class F> static inline M product(Band &b, const int *ip, F val, bool swaps) {
    int m = b.m, n = b.n, k = std::min(m, n); M R(m, n);
    for (int j = 0; j < n; j++) for (int i = std::max(0, j - b.kl - b.ku); i <= std::min(j, k - 1); i++) R(i, j) = val(b.at(i, j));
    int np = (k + b.nb - 1) / b.nb;
    for (int p = np - 1; p >= 0; p--) {
        int j0 = p * b.nb, j1 = std::min(k, j0 + b.nb), last = std::min(m, std::min(m, j0 + b.nb) + b.kl);
        for (int j = j1 - 1; j >= j0; j--) for (int i = j + 1; i < last; i++) { int r = b.kl + b.ku + i - j; if (r >= b.A.rows()) break; auto l = val(b.A(r, j)); if (l == decltype(l)(0)) continue; for (int q = 0; q < n; q++) R(i, q) += l * R(j, q); }
        (void)swaps;
        for (int i = j1 - 1; i >= j0; i--) { int q = ip[i] - 1; if (q != i) for (int j = 0; j < n; j++) std::swap(R(i, j), R(q, j)); }
    }
    return R;
}
}
