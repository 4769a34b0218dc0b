// Access to the extended-precision LU routines and to DenseMatrix from Python, with residuals computed here in the same precision by plain loops.
#include "DenseMatrix.hh"
#include "Float128.hh"
#include <cmath>
#include <cstring>
#include <vector>
typedef __float128 q;
extern "C" {
void quad_dgetrf_(int *m, int *n, q *a, int *lda, int *ipiv, int *info);
void quad_dgetrs_(char *trans, int *n, int *nrhs, q *a, int *lda, int *ipiv, q *b, int *ldb, int *info);
q ldexpq(q, int);
}
#define API extern "C" __attribute__((visibility("default")))

// the double-precision routines DenseMatrix<double> uses: plain elimination
void getrf(int *m, int *n, double *a, int *lda, int *ipiv, int *info)
{
  *info = 0;
  for (int k = 0; k < *n; ++k)
  {
    int p = k;
    for (int i = k + 1; i < *m; ++i) if (std::fabs(a[i + k * *lda]) > std::fabs(a[p + k * *lda])) p = i;
    ipiv[k] = p + 1;
    if (a[p + k * *lda] == 0.0) { if (!*info) *info = k + 1; continue; }
    if (p != k) for (int j = 0; j < *n; ++j) std::swap(a[p + j * *lda], a[k + j * *lda]);
    for (int i = k + 1; i < *m; ++i)
    {
      a[i + k * *lda] /= a[k + k * *lda];
      for (int j = k + 1; j < *n; ++j) a[i + j * *lda] -= a[i + k * *lda] * a[k + j * *lda];
    }
  }
}

void getrs(char *trans, int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info)
{
  *info = 0;
  if (*trans != 'N') { *info = -1; return; }
  for (int c = 0; c < *nrhs; ++c)
  {
    double *x = b + c * *ldb;
    for (int i = 0; i < *n; ++i) if (ipiv[i] - 1 != i) std::swap(x[i], x[ipiv[i] - 1]);
    for (int i = 0; i < *n; ++i) for (int j = 0; j < i; ++j) x[i] -= a[i + j * *lda] * x[j];
    for (int i = *n - 1; i >= 0; --i)
    {
      for (int j = i + 1; j < *n; ++j) x[i] -= a[i + j * *lda] * x[j];
      x[i] /= a[i + i * *lda];
    }
  }
}

static q absq(q x) { return x < 0 ? -x : x; }
static const q U = 0x1p-113Q;
static const q TINY = 0x1p-16494Q;

// count elements hi + lo, times 2^e
API void qmake(int count, const double *hi, const double *lo, const int *e, q *out)
{
  for (int i = 0; i < count; ++i) out[i] = ldexpq((q)hi[i] + (q)lo[i], e[i]);
}

API void qhi(int count, const q *x, double *out) { for (int i = 0; i < count; ++i) out[i] = (double)x[i]; }

API void qgetrf(int m, int n, q *a, int lda, int *ipiv, int *info) { quad_dgetrf_(&m, &n, a, &lda, ipiv, info); }
API void qgetrs(char trans, int n, int nrhs, q *a, int lda, int *ipiv, q *b, int ldb, int *info) { quad_dgetrs_(&trans, &n, &nrhs, a, &lda, ipiv, b, &ldb, info); }

// The row of the original matrix that ends in row i.
static std::vector<int> rows(int m, int n, const int *ipiv)
{
  std::vector<int> r(m);
  for (int i = 0; i < m; ++i) r[i] = i;
  for (int i = 0; i < std::min(m, n); ++i) std::swap(r[i], r[ipiv[i] - 1]);
  return r;
}

// Worst ratio of |PA - LU| to its rounding bound; *big gets the largest |l|; *zero the first zero on the diagonal of U, or 0.
API double qfactor(int m, int n, const q *a, int lda, const q *f, int ldf, const int *ipiv, double *big, int *zero, int *at)
{
  std::vector<int> r = rows(m, n, ipiv);
  const int k = std::min(m, n);
  q worst = 0, l = 0;
  for (int i = 0; i < m; ++i) for (int j = 0; j < std::min(i, k); ++j)
  {
    const q v = absq(f[i + (size_t)j * ldf]);
    if (!(v <= l)) l = v;
  }
  *zero = 0;
  for (int i = 0; i < k && !*zero; ++i) if (f[i + (size_t)i * ldf] == 0) *zero = i + 1;
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i)
  {
    q s = 0, t = 0;
    for (int p = 0; p <= std::min(std::min(i, j), k - 1); ++p)
    {
      const q v = (p == i ? (q)1 : f[i + (size_t)p * ldf]) * f[p + (size_t)j * ldf];
      s += v;
      t += absq(v);
    }
    const q e = absq(s - a[r[i] + (size_t)j * lda]);
    const q b = (4 * k + 12) * (U * t + TINY);
    const q w = e / b;
    if (!(w <= worst)) { worst = w; at[0] = i; at[1] = j; if (w != w) { *big = (double)l; return INFINITY; } }
  }
  *big = (double)l;
  return (double)worst;
}

// Worst ratio of |b - op(A) x| to its rounding bound.
API double qsolved(int n, int transposed, const q *a, int lda, const q *f, int ldf, const int *ipiv, const q *b, const q *x, int *at)
{
  std::vector<int> r = rows(n, n, ipiv);
  std::vector<q> y(n), z(n), res(n);
  for (int i = 0; i < n; ++i)
  {
    q s = b[i];
    for (int j = 0; j < n; ++j) s -= (transposed ? a[j + (size_t)i * lda] : a[i + (size_t)j * lda]) * x[j];
    res[i] = absq(s);
  }
  std::vector<q> bound(n);
  if (!transposed)
  {
    for (int i = 0; i < n; ++i) { y[i] = 0; for (int j = i; j < n; ++j) y[i] += absq(f[i + (size_t)j * ldf]) * absq(x[j]); }
    for (int i = 0; i < n; ++i) { z[i] = y[i]; for (int j = 0; j < i; ++j) z[i] += absq(f[i + (size_t)j * ldf]) * y[j]; }
    for (int i = 0; i < n; ++i) bound[r[i]] = z[i];
  }
  else
  {
    // op(A) = U' L' P, so |U'| |L'| |P x|
    for (int i = 0; i < n; ++i) { y[i] = absq(x[r[i]]); for (int j = i + 1; j < n; ++j) y[i] += absq(f[j + (size_t)i * ldf]) * absq(x[r[j]]); }
    for (int i = 0; i < n; ++i) { bound[i] = 0; for (int j = 0; j <= i; ++j) bound[i] += absq(f[j + (size_t)i * ldf]) * y[j]; }
  }
  q worst = 0;
  for (int i = 0; i < n; ++i)
  {
    const q w = res[i] / ((12 * n + 30) * (U * (bound[i] + absq(b[i])) + TINY));
    if (w != w) { *at = i; return INFINITY; }
    if (!(w <= worst)) { worst = w; *at = i; }
  }
  return (double)worst;
}

// DenseMatrix of either precision, filled, factored and used for solves through its public functions.
struct Dense {
  std::unique_ptr<dsMath::DenseMatrix<double>> d;
  std::unique_ptr<dsMath::DenseMatrix<float128>> x;
  int n;
};
API Dense *dnew(int n, int extended)
{
  Dense *p = new Dense;
  p->n = n;
  if (extended) p->x.reset(new dsMath::DenseMatrix<float128>(n)); else p->d.reset(new dsMath::DenseMatrix<double>(n));
  return p;
}
API void ddel(Dense *p) { delete p; }
// a holds the values by columns
API int dfactor(Dense *p, const q *a)
{
  for (int i = 0; i < p->n; ++i) for (int j = 0; j < p->n; ++j)
  {
    if (p->x) (*p->x)(i, j) = float128(a[i + (size_t)j * p->n]); else (*p->d)(i, j) = (double)a[i + (size_t)j * p->n];
  }
  return p->x ? p->x->LUFactor() : p->d->LUFactor();
}
API int dsolve(Dense *p, q *b)
{
  int ok;
  if (p->x)
  {
    std::vector<float128> v(b, b + p->n);
    ok = p->x->Solve(v.data());
    for (int i = 0; i < p->n; ++i) b[i] = v[i].backend().value();
  }
  else
  {
    std::vector<double> v(p->n);
    for (int i = 0; i < p->n; ++i) v[i] = (double)b[i];
    ok = p->d->Solve(v.data());
    for (int i = 0; i < p->n; ++i) b[i] = v[i];
  }
  return ok;
}
// max |b - A x| and max (|A| |x| + |b|), by rows: worst ratio in units of u
API double dresid(int n, const q *a, const q *b, const q *x, double u)
{
  q num = 0, den = TINY;
  for (int i = 0; i < n; ++i)
  {
    q s = b[i], t = absq(b[i]);
    for (int j = 0; j < n; ++j) { const q v = a[i + (size_t)j * n] * x[j]; s -= v; t += absq(v); }
    s = absq(s);
    if (s != s) return INFINITY;
    if (s > num) num = s;
    if (t > den) den = t;
  }
  return (double)(num / den / (q)u);
}
