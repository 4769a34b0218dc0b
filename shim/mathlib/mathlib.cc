// Stand-in for the Intel MKL / LAPACK that devsim loads with dlopen (not available offline):
// PARDISO (general unsymmetric, real and complex), dgetrf/dgetrs, zgetrf/zgetrs, drotg/zrotg.
// Straightforward textbook algorithms, used only as trusted solver below the code under test.
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
using cplx = std::complex<double>;
static double mag(double x) { return std::fabs(x); }
static double mag(cplx x) { return std::fabs(x.real()) + std::fabs(x.imag()); }

template <typename T>
static void getrf_t(int m, int n, T *a, int lda, int *ipiv, int *info)
{
  *info = 0;
  for (int k = 0; k < std::min(m, n); ++k)
  {
    int p = k;
    for (int i = k + 1; i < m; ++i) if (mag(a[i + (size_t)k * lda]) > mag(a[p + (size_t)k * lda])) p = i;
    ipiv[k] = p + 1;
    if (mag(a[p + (size_t)k * lda]) == 0.0) { if (!*info) *info = k + 1; continue; }
    if (p != k) for (int j = 0; j < n; ++j) std::swap(a[k + (size_t)j * lda], a[p + (size_t)j * lda]);
    for (int i = k + 1; i < m; ++i) a[i + (size_t)k * lda] /= a[k + (size_t)k * lda];
    for (int j = k + 1; j < n; ++j)
    {
      T f = a[k + (size_t)j * lda];
      if (mag(f) == 0.0) continue;
      for (int i = k + 1; i < m; ++i) a[i + (size_t)j * lda] -= a[i + (size_t)k * lda] * f;
    }
  }
}
static cplx cj(cplx x) { return std::conj(x); }
static double cj(double x) { return x; }
template <typename T>
static void getrs_t(char t, int n, int nrhs, const T *a, int lda, const int *ipiv, T *b, int ldb, int *info)
{
  *info = 0;
  for (int r = 0; r < nrhs; ++r)
  {
    T *x = b + (size_t)r * ldb;
    if (t == 'N' || t == 'n')
    {
      for (int k = 0; k < n; ++k) { int p = ipiv[k] - 1; if (p != k) std::swap(x[k], x[p]); }
      for (int k = 0; k < n; ++k) for (int i = k + 1; i < n; ++i) x[i] -= a[i + (size_t)k * lda] * x[k];
      for (int k = n - 1; k >= 0; --k) { x[k] /= a[k + (size_t)k * lda]; for (int i = 0; i < k; ++i) x[i] -= a[i + (size_t)k * lda] * x[k]; }
    }
    else
    {
      bool c = (t == 'C' || t == 'c');
      auto A = [&](int i, int j) { T v = a[i + (size_t)j * lda]; return c ? cj(v) : v; };
      for (int k = 0; k < n; ++k) { for (int i = 0; i < k; ++i) x[k] -= A(i, k) * x[i]; x[k] /= A(k, k); }
      for (int k = n - 1; k >= 0; --k) for (int i = k + 1; i < n; ++i) x[k] -= A(i, k) * x[i];
      for (int k = n - 1; k >= 0; --k) { int p = ipiv[k] - 1; if (p != k) std::swap(x[k], x[p]); }
    }
  }
}

// sparse LU, rows of U / L as sorted vectors, row-wise elimination with partial pivoting by column choice
template <typename T>
struct SparseLU {
  int n = 0;
  std::vector<int> q;                                    // column order: position k <- original column q[k]
  std::vector<std::vector<std::pair<int, T>>> L, U;      // L: rows, U: rows
  std::vector<int> colpos;                               // pivot column chosen for row step k (original column)
  std::vector<int> rows;                                 // row order
  // Factor A (CSR) by processing rows in order rows[k]; pivot = largest remaining entry of the row.
  int factor(int nn, const int *ia, const int *ja, const T *a, const std::vector<int> &order)
  {
    n = nn; rows = order; L.assign(n, {}); U.assign(n, {}); colpos.assign(n, -1);
    std::vector<int> step_of_col(n, -1);
    std::vector<T> w(n, T(0)); std::vector<char> in(n, 0);
    for (int k = 0; k < n; ++k)
    {
      int r = rows[k];
      std::vector<int> nz; std::vector<int> heap;        // heap of steps to eliminate
      auto touch = [&](int c) { if (!in[c]) { in[c] = 1; nz.push_back(c); if (step_of_col[c] >= 0) { heap.push_back(-step_of_col[c]); std::push_heap(heap.begin(), heap.end()); } } };
      for (int p = ia[r]; p < ia[r + 1]; ++p) { touch(ja[p]); w[ja[p]] += a[p]; }
      while (!heap.empty())
      {
        std::pop_heap(heap.begin(), heap.end()); int s = -heap.back(); heap.pop_back();
        int pc = colpos[s]; T f = w[pc]; 
        if (mag(f) == 0.0) continue;
        f /= U[s][0].second;
        L[k].push_back({s, f});
        for (size_t j = 1; j < U[s].size(); ++j) { touch(U[s][j].first); w[U[s][j].first] -= f * U[s][j].second; }
        w[pc] = T(0);
      }
      int best = -1;
      for (int c : nz) if (step_of_col[c] < 0 && mag(w[c]) > 0.0)
        if (best < 0 || mag(w[c]) > mag(w[best])) best = c;
      if (best < 0 || !std::isfinite(mag(w[best]))) return -4;
      // prefer the diagonal when it is good enough (keeps fill low)
      if (in[r] && step_of_col[r] < 0 && mag(w[r]) >= 0.1 * mag(w[best])) best = r;
      colpos[k] = best; step_of_col[best] = k;
      U[k].push_back({best, w[best]});
      for (int c : nz) { if (c != best && step_of_col[c] < 0 && mag(w[c]) != 0.0) U[k].push_back({c, w[c]}); w[c] = T(0); in[c] = 0; }
      w[best] = T(0); in[best] = 0;
    }
    return 0;
  }
  void solve(const T *b, T *x) const
  {
    std::vector<T> y(n);
    for (int k = 0; k < n; ++k) { T v = b[rows[k]]; for (auto &e : L[k]) v -= e.second * y[e.first]; y[k] = v; }
    for (int k = n - 1; k >= 0; --k) { T v = y[k]; for (size_t j = 1; j < U[k].size(); ++j) v -= U[k][j].second * x[U[k][j].first]; x[colpos[k]] = v / U[k][0].second; }
  }
  void solveT(const T *b, T *x, bool conj) const
  {
    // A^T x = b : U^T z = b (in column space), L^T y = z, x[rows] = y
    auto V = [&](T v) { return conj ? cj(v) : v; };
    std::vector<T> acc(b, b + n), z(n);
    for (int k = 0; k < n; ++k)
    {
      z[k] = acc[colpos[k]] / V(U[k][0].second);
      for (size_t j = 1; j < U[k].size(); ++j) acc[U[k][j].first] -= V(U[k][j].second) * z[k];
    }
    for (int k = n - 1; k >= 0; --k) for (auto &e : L[k]) z[e.first] -= V(e.second) * z[k];
    for (int k = 0; k < n; ++k) x[rows[k]] = z[k];
  }
};

static std::vector<int> rcm(int n, const int *ia, const int *ja)
{
  std::vector<std::vector<int>> g(n);
  for (int i = 0; i < n; ++i) for (int p = ia[i]; p < ia[i + 1]; ++p) if (ja[p] != i) { g[i].push_back(ja[p]); g[ja[p]].push_back(i); }
  for (auto &v : g) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
  std::vector<int> o; std::vector<char> seen(n, 0); std::vector<int> byd(n);
  for (int i = 0; i < n; ++i) byd[i] = i;
  std::stable_sort(byd.begin(), byd.end(), [&](int a, int b) { return g[a].size() < g[b].size(); });
  for (int s : byd)
  {
    if (seen[s]) continue;
    size_t h = o.size(); o.push_back(s); seen[s] = 1;
    for (; h < o.size(); ++h)
    {
      std::vector<int> nb; for (int c : g[o[h]]) if (!seen[c]) { seen[c] = 1; nb.push_back(c); }
      std::stable_sort(nb.begin(), nb.end(), [&](int a, int b) { return g[a].size() < g[b].size(); });
      o.insert(o.end(), nb.begin(), nb.end());
    }
  }
  std::reverse(o.begin(), o.end());
  return o;
}

// Equilibration plus iterative refinement around SparseLU: device matrices mix rows and
// columns that differ by 20 orders of magnitude.
template <typename T> struct wide { typedef long double type; };
template <> struct wide<cplx> { typedef std::complex<long double> type; };
template <typename T>
struct ScaledLU {
  SparseLU<T> lu; int n = 0; std::vector<double> dr, dc; std::vector<T> a; const int *ia = nullptr, *ja = nullptr;
  int factor(int nn, const int *ia_, const int *ja_, const T *av, const std::vector<int> &order)
  {
    n = nn; ia = ia_; ja = ja_; a.assign(av, av + ia[n]); dr.assign(n, 1.0); dc.assign(n, 1.0);
    for (int it = 0; it < 8; ++it)
    {
      std::vector<double> rm(n, 0.0), cm(n, 0.0);
      for (int r = 0; r < n; ++r) for (int p = ia[r]; p < ia[r + 1]; ++p)
      {
        double v = std::abs(a[p]) * dr[r] * dc[ja[p]];
        rm[r] = std::max(rm[r], v); cm[ja[p]] = std::max(cm[ja[p]], v);
      }
      auto p2 = [](double m) { int e; if (m == 0.0 || !std::isfinite(m)) return 1.0; std::frexp(m, &e); return std::ldexp(1.0, -e / 2); };
      for (int i = 0; i < n; ++i) { dr[i] *= p2(rm[i]); dc[i] *= p2(cm[i]); }
    }
    std::vector<T> s(a.size());
    for (int r = 0; r < n; ++r) for (int p = ia[r]; p < ia[r + 1]; ++p) s[p] = a[p] * (dr[r] * dc[ja[p]]);
    return lu.factor(n, ia, ja, s.data(), order);
  }
  void solve(const T *b, T *x, int t) const   // t: 0 = A x, 1 = A^H x, 2 = A^T x
  {
    typedef typename wide<T>::type W;
    std::vector<T> r(b, b + n), y(n), w(n); std::vector<W> acc(n, W(0));
    for (int it = 0; it < 4; ++it)
    {
      const std::vector<double> &p = t ? dc : dr, &q = t ? dr : dc;
      for (int i = 0; i < n; ++i) w[i] = r[i] * p[i];
      if (t) lu.solveT(w.data(), y.data(), t == 1); else lu.solve(w.data(), y.data());
      for (int i = 0; i < n; ++i) acc[i] += W(y[i] * q[i]);
      std::vector<W> res(n);
      for (int i = 0; i < n; ++i) res[i] = W(b[i]);
      for (int i = 0; i < n; ++i) for (int k = ia[i]; k < ia[i + 1]; ++k)
      {
        if (!t) res[i] -= W(a[k]) * acc[ja[k]];
        else res[ja[k]] -= W(t == 1 ? cj(a[k]) : a[k]) * acc[i];
      }
      for (int i = 0; i < n; ++i) r[i] = T(res[i]);
    }
    for (int i = 0; i < n; ++i) x[i] = T(acc[i]);
  }
};

struct Handle {
  int n = 0, mtype = 0; bool analysed = false, factored = false;
  std::vector<int> ia, ja, order;
  ScaledLU<double> d; ScaledLU<cplx> z;
};

static long n_symbolic = 0, n_numeric = 0, n_solve = 0, n_badpattern = 0;

extern "C" {
// observation for the checks
long verif_pardiso_counter(int which) { return which == 0 ? n_symbolic : which == 1 ? n_numeric : which == 2 ? n_solve : n_badpattern; }

void PARDISO(void **pt, const int *, const int *, const int *mtype, const int *phase, const int *n, const void *a, const int *ia, const int *ja, int *, const int *, int *iparm, const int *, void *b, void *x, int *error)
{
  Handle *&h = *reinterpret_cast<Handle **>(pt);
  *error = 0;
  if (*phase == -1) { delete h; h = nullptr; return; }
  int base = iparm[34] ? 0 : 1;
  if (*phase == 11)
  {
    ++n_symbolic;
    delete h; h = new Handle;
    h->n = *n; h->mtype = *mtype;
    h->ia.assign(ia, ia + *n + 1); for (auto &v : h->ia) v -= base;
    h->ja.assign(ja, ja + h->ia[*n]); for (auto &v : h->ja) v -= base;
    for (int r = 0; r < *n; ++r) for (int p = h->ia[r]; p < h->ia[r + 1]; ++p) if (h->ja[p] < 0 || h->ja[p] >= *n || (p > h->ia[r] && h->ja[p] <= h->ja[p - 1])) { *error = -1; return; }
    h->order = rcm(*n, h->ia.data(), h->ja.data());
    h->analysed = true;
    return;
  }
  if (!h || !h->analysed) { *error = -1; return; }
  if (*phase == 22)
  {
    ++n_numeric;
    // the analysis phase fixed the pattern: a different pattern here is a caller error
    for (int i = 0; i <= h->n; ++i) if (ia[i] - base != h->ia[i]) { ++n_badpattern; *error = -1; return; }
    for (int i = 0; i < h->ia[h->n]; ++i) if (ja[i] - base != h->ja[i]) { ++n_badpattern; *error = -1; return; }
    if (*mtype != h->mtype) { ++n_badpattern; *error = -1; return; }
    if (*mtype == 13) *error = h->z.factor(h->n, h->ia.data(), h->ja.data(), reinterpret_cast<const cplx *>(a), h->order);
    else *error = h->d.factor(h->n, h->ia.data(), h->ja.data(), reinterpret_cast<const double *>(a), h->order);
    h->factored = (*error == 0);
    return;
  }
  if (*phase == 33)
  {
    ++n_solve;
    if (!h->factored) { *error = -1; return; }
    int t = iparm[11];
    if (h->mtype == 13) h->z.solve((const cplx *)b, (cplx *)x, t);
    else h->d.solve((const double *)b, (double *)x, t);
    return;
  }
  *error = -1;
}
void mkl_get_version_string(char *s, int l) { snprintf(s, l, "verification stand-in for Intel MKL    "); }
void dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info) { getrf_t(*m, *n, a, *lda, ipiv, info); }
void zgetrf_(int *m, int *n, cplx *a, int *lda, int *ipiv, int *info) { getrf_t(*m, *n, a, *lda, ipiv, info); }
void dgetrs_(char *t, int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info) { getrs_t(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb, info); }
void zgetrs_(char *t, int *n, int *nrhs, cplx *a, int *lda, int *ipiv, cplx *b, int *ldb, int *info) { getrs_t(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb, info); }
void drotg_(double *a, double *b, double *c, double *s)
{
  double roe = std::fabs(*a) > std::fabs(*b) ? *a : *b, scale = std::fabs(*a) + std::fabs(*b);
  if (scale == 0.0) { *c = 1; *s = 0; *a = 0; *b = 0; return; }
  double r = scale * std::sqrt((*a / scale) * (*a / scale) + (*b / scale) * (*b / scale));
  r = roe < 0 ? -r : r; *c = *a / r; *s = *b / r;
  double z = 1; if (std::fabs(*a) > std::fabs(*b)) z = *s; else if (*c != 0.0) z = 1.0 / *c;
  *a = r; *b = z;
}
void zrotg_(cplx *ca, cplx *cb, double *c, cplx *s)
{
  if (std::abs(*ca) == 0.0) { *c = 0; *s = cplx(1, 0); *ca = *cb; return; }
  double scale = std::abs(*ca) + std::abs(*cb);
  double norm = scale * std::sqrt(std::norm(*ca / scale) + std::norm(*cb / scale));
  cplx alpha = *ca / std::abs(*ca);
  *c = std::abs(*ca) / norm; *s = alpha * std::conj(*cb) / norm; *ca = alpha * norm;
}
}
