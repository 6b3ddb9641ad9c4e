// poly: a small array interface over the integer set library (libisl) used by GCC, for the
// polyhedral abstract domain of lib/num.py.  Rows are  const, coef_1..coef_n ; eq[i] tells "== 0" from ">= 0".
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <csignal>
#include <sys/time.h>
extern "C" {
typedef struct isl_ctx isl_ctx; typedef struct isl_space isl_space; typedef struct isl_basic_set isl_basic_set; typedef struct isl_set isl_set;
typedef struct isl_local_space isl_local_space; typedef struct isl_constraint isl_constraint; typedef struct isl_mat isl_mat; typedef struct isl_val isl_val;
typedef struct isl_options isl_options;
enum isl_dim_type { isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div, isl_dim_all };
#define isl_dim_set isl_dim_out
isl_ctx *isl_ctx_alloc(void);
int isl_options_set_on_error(isl_ctx *, int);
void isl_ctx_set_max_operations(isl_ctx *, unsigned long);
void isl_ctx_reset_operations(isl_ctx *);
void isl_ctx_reset_error(isl_ctx *);
void isl_ctx_abort(isl_ctx *);
void isl_ctx_resume(isl_ctx *);
isl_space *isl_space_set_alloc(isl_ctx *, unsigned, unsigned);
isl_mat *isl_mat_alloc(isl_ctx *, unsigned, unsigned);
isl_mat *isl_mat_set_element_si(isl_mat *, int, int, int);
isl_mat *isl_mat_set_element_val(isl_mat *, int, int, isl_val *);
isl_val *isl_val_int_from_si(isl_ctx *, long);
isl_val *isl_mat_get_element_val(isl_mat *, int, int);
int isl_mat_rows(isl_mat *); int isl_mat_cols(isl_mat *); isl_mat *isl_mat_free(isl_mat *);
long isl_val_get_num_si(isl_val *); isl_val *isl_val_free(isl_val *); int isl_val_is_int(isl_val *); int isl_val_cmp_si(isl_val *, long);
isl_basic_set *isl_basic_set_from_constraint_matrices(isl_space *, isl_mat *eq, isl_mat *ineq, isl_dim_type, isl_dim_type, isl_dim_type, isl_dim_type);
isl_mat *isl_basic_set_equalities_matrix(isl_basic_set *, isl_dim_type, isl_dim_type, isl_dim_type, isl_dim_type);
isl_mat *isl_basic_set_inequalities_matrix(isl_basic_set *, isl_dim_type, isl_dim_type, isl_dim_type, isl_dim_type);
int isl_basic_set_is_empty(isl_basic_set *);
int isl_basic_set_fast_is_empty(isl_basic_set *);
isl_basic_set *isl_basic_set_free(isl_basic_set *);
isl_basic_set *isl_basic_set_copy(isl_basic_set *);
isl_basic_set *isl_basic_set_intersect(isl_basic_set *, isl_basic_set *);
isl_basic_set *isl_basic_set_eliminate(isl_basic_set *, isl_dim_type, unsigned, unsigned);
isl_basic_set *isl_basic_set_remove_redundancies(isl_basic_set *);
isl_basic_set *isl_basic_set_detect_equalities(isl_basic_set *);
isl_basic_set *isl_basic_set_remove_divs(isl_basic_set *);
isl_basic_set *isl_set_convex_hull(isl_set *);
isl_basic_set *isl_set_polyhedral_hull(isl_set *);
isl_basic_set *isl_set_simple_hull(isl_set *);
isl_basic_set *isl_set_affine_hull(isl_set *);
isl_set *isl_set_from_basic_set(isl_basic_set *); isl_set *isl_set_union(isl_set *, isl_set *); isl_set *isl_set_free(isl_set *); isl_set *isl_set_copy(isl_set *);
int isl_set_is_subset(isl_set *, isl_set *); int isl_set_is_empty(isl_set *);
isl_set *isl_set_subtract(isl_set *, isl_set *); isl_set *isl_set_make_disjoint(isl_set *);
int isl_basic_set_is_rational(isl_basic_set *);
}
static isl_ctx *ctx;
static const unsigned long MAXOPS = 400000;
static void expire(int) { if (ctx) isl_ctx_abort(ctx); }
// one operation gets at most 3 s of processor time (numbers can grow without bound inside few pivots)
static void begin(unsigned long k = 1) {
    if (!ctx) { ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, 1 /* continue */); signal(SIGVTALRM, expire); }
    itimerval t = {};
    t.it_value.tv_sec = 3;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    isl_ctx_resume(ctx);
    isl_ctx_reset_error(ctx);
    isl_ctx_reset_operations(ctx);
    isl_ctx_set_max_operations(ctx, MAXOPS * k);
}
static isl_basic_set *mk(int n, int m, const int64_t *rows, const int32_t *eq) {
    int ne = 0; for (int i = 0; i < m; ++i) ne += eq[i] != 0;
    isl_mat *E = isl_mat_alloc(ctx, ne, n + 1), *I = isl_mat_alloc(ctx, m - ne, n + 1);
    int e = 0, q = 0;
    for (int i = 0; i < m; ++i) {
        isl_mat *&M = eq[i] ? E : I; int &r = eq[i] ? e : q;
        for (int j = 0; j <= n; ++j) {
            int64_t v = rows[(int64_t)i * (n + 1) + j];
            if (v >= -2000000000LL && v <= 2000000000LL) M = isl_mat_set_element_si(M, r, j, (int)v);
            else M = isl_mat_set_element_val(M, r, j, isl_val_int_from_si(ctx, v));
        }
        ++r;
    }
    return isl_basic_set_from_constraint_matrices(isl_space_set_alloc(ctx, 0, n), E, I, isl_dim_cst, isl_dim_set, isl_dim_div, isl_dim_param);
}
// 1 empty, 0 not, -1 gave up
extern "C" int p_empty(int n, int m, const int64_t *rows, const int32_t *eq) {
    begin();
    isl_basic_set *b = mk(n, m, rows, eq);
    int r = b ? isl_basic_set_is_empty(b) : -1;
    isl_basic_set_free(b);
    return r;
}
static int out(isl_basic_set *b, int n, int maxrows, int64_t *orows, int32_t *oeq) {
    if (!b) return -1;
    int k = 0;
    for (int pass = 0; pass < 2; ++pass) {
        isl_mat *M = pass ? isl_basic_set_inequalities_matrix(b, isl_dim_cst, isl_dim_set, isl_dim_div, isl_dim_param)
                          : isl_basic_set_equalities_matrix(b, isl_dim_cst, isl_dim_set, isl_dim_div, isl_dim_param);
        if (!M) { isl_basic_set_free(b); return -1; }
        int R = isl_mat_rows(M), C = isl_mat_cols(M);
        for (int i = 0; i < R; ++i) {
            bool ok = true;
            if (k >= maxrows) { isl_mat_free(M); isl_basic_set_free(b); return -1; }
            for (int j = 0; j < C; ++j) {
                isl_val *v = isl_mat_get_element_val(M, i, j);
                if (!v) { ok = false; break; }
                if (isl_val_cmp_si(v, 1L << 60) > 0 || isl_val_cmp_si(v, -(1L << 60)) < 0) ok = false;
                long x = isl_val_get_num_si(v);
                isl_val_free(v);
                if (j <= n) orows[(int64_t)k * (n + 1) + j] = x;
                else if (x) ok = false;   // mentions an existential: dropped (over-approximation)
            }
            if (ok) { oeq[k] = !pass; ++k; }
        }
        isl_mat_free(M);
    }
    isl_basic_set_free(b);
    return k;
}
// eliminate the last `kill` variables; returns number of rows, -1 gave up, -2 empty
extern "C" int p_eliminate(int n, int m, const int64_t *rows, const int32_t *eq, int kill, int maxrows, int64_t *orows, int32_t *oeq) {
    begin(4);
    isl_basic_set *b = mk(n, m, rows, eq);
    if (kill) b = isl_basic_set_eliminate(b, isl_dim_set, n - kill, kill);
    b = isl_basic_set_remove_divs(b);
    b = isl_basic_set_detect_equalities(b);
    b = isl_basic_set_remove_redundancies(b);
    if (!b) return -1;
    if (isl_basic_set_is_empty(b) == 1) { isl_basic_set_free(b); return -2; }
    return out(b, n, maxrows, orows, oeq);
}
// convex hull of k polyhedra; mode 0 exact convex hull, 1 cheap (simple hull and affine hull)
extern "C" int p_hull(int n, int k, const int32_t *ms, const int64_t *rows, const int32_t *eq, int mode, int maxrows, int64_t *orows, int32_t *oeq) {
    begin(20);
    isl_set *s = nullptr;
    for (int i = 0; i < k; ++i) {
        isl_set *t = isl_set_from_basic_set(mk(n, ms[i], rows, eq));
        rows += (int64_t)ms[i] * (n + 1); eq += ms[i];
        s = s ? isl_set_union(s, t) : t;
    }
    if (!s) return -1;
    isl_basic_set *b;
    if (mode == 0) { b = isl_set_convex_hull(s); b = isl_basic_set_remove_divs(b); b = isl_basic_set_remove_redundancies(b); }
    else {
        isl_basic_set *a = isl_set_affine_hull(isl_set_copy(s));
        b = isl_basic_set_intersect(isl_set_simple_hull(s), a);
        b = isl_basic_set_remove_divs(b);
        b = isl_basic_set_remove_redundancies(b);
    }
    return out(b, n, maxrows, orows, oeq);
}
// is A a subset of the union of k polyhedra: 1 / 0 / -1
extern "C" int p_covered(int n, int m, const int64_t *rows, const int32_t *eq, int k, const int32_t *ms, const int64_t *rows2, const int32_t *eq2) {
    begin(20);
    isl_set *a = isl_set_from_basic_set(mk(n, m, rows, eq)), *s = nullptr;
    for (int i = 0; i < k; ++i) {
        isl_set *t = isl_set_from_basic_set(mk(n, ms[i], rows2, eq2));
        rows2 += (int64_t)ms[i] * (n + 1); eq2 += ms[i];
        s = s ? isl_set_union(s, t) : t;
    }
    int r = a && s ? isl_set_is_subset(a, s) : -1;
    isl_set_free(a); isl_set_free(s);
    return r;
}
// ---------------------------------------------------------------- convex hull by double description
#include <algorithm>
#include <bitset>
namespace {
struct Over {};
typedef std::vector<int64_t> Vec;
typedef std::bitset<512> Sat;
struct Gen { Vec v; Sat sat; };
int64_t igcd(int64_t a, int64_t b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { int64_t t = a % b; a = b; b = t; } return a; }
void reduce(Vec &v) {
    int64_t g = 0;
    for (int64_t x : v) { g = igcd(g, x); if (g == 1) return; }
    if (g > 1) for (int64_t &x : v) x /= g;
}
int64_t dot(const Vec &a, const Vec &b) {
    __int128 s = 0;
    for (size_t i = 0; i < a.size(); ++i) s += (__int128)a[i] * b[i];
    if (s > INT64_MAX / 4 || s < -(INT64_MAX / 4)) throw Over();
    return (int64_t)s;
}
// p*a - q*b, reduced
Vec comb(int64_t p, const Vec &a, int64_t q, const Vec &b) {
    int64_t g = igcd(p, q);
    if (g > 1) { p /= g; q /= g; }
    Vec r(a.size());
    std::vector<__int128> w(a.size());
    __int128 gg = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        w[i] = (__int128)p * a[i] - (__int128)q * b[i];
        __int128 x = gg, y = w[i] < 0 ? -w[i] : w[i];
        while (y) { __int128 t = x % y; x = y; y = t; }
        gg = x < 0 ? -x : x;
    }
    for (size_t i = 0; i < a.size(); ++i) {
        __int128 x = gg > 1 ? w[i] / gg : w[i];
        if (x > INT64_MAX / 8 || x < -(INT64_MAX / 8)) throw Over();
        r[i] = (int64_t)x;
    }
    return r;
}
// cone { x : eq . x = 0, ineq . x >= 0 }  ->  lines, rays
void dd(int d, const std::vector<Vec> &cons, const std::vector<char> &eq, std::vector<Vec> &lines, std::vector<Vec> &rays, size_t cap) {
    if (cons.size() > 500) throw Over();
    std::vector<Gen> L, R;
    for (int i = 0; i < d; ++i) { Gen g; g.v.assign(d, 0); g.v[i] = 1; L.push_back(g); }
    for (size_t k = 0; k < cons.size(); ++k) {
        const Vec &c = cons[k];
        int pick = -1; int64_t pv = 0;
        for (size_t i = 0; i < L.size(); ++i) {
            int64_t x = dot(c, L[i].v);
            if (x) { pick = (int)i; pv = x; break; }
        }
        if (pick >= 0) {
            Gen l = L[pick];
            L.erase(L.begin() + pick);
            if (pv < 0) { for (int64_t &x : l.v) x = -x; pv = -pv; }
            for (Gen &g : L) { int64_t x = dot(c, g.v); if (x) g.v = comb(pv, g.v, x, l.v); }
            for (Gen &g : R) { int64_t x = dot(c, g.v); if (x) g.v = comb(pv, g.v, x, l.v); g.sat.set(k); }
            if (!eq[k]) {
                l.sat.reset();
                for (size_t j = 0; j < k; ++j) l.sat.set(j);
                R.push_back(l);
            }
            continue;
        }
        std::vector<int64_t> val(R.size());
        std::vector<int> P, Z, N;
        for (size_t i = 0; i < R.size(); ++i) { val[i] = dot(c, R[i].v); (val[i] > 0 ? P : val[i] < 0 ? N : Z).push_back((int)i); }
        if (N.empty() && !(eq[k] && !P.empty())) { for (int z : Z) R[z].sat.set(k); continue; }
        std::vector<Gen> out;
        for (int z : Z) { Gen g = R[z]; g.sat.set(k); out.push_back(g); }
        if (!eq[k]) for (int p : P) out.push_back(R[p]);
        for (int p : P) for (int n : N) {
            Sat s = R[p].sat & R[n].sat;
            bool adj = true;
            for (size_t j = 0; j < R.size() && adj; ++j) if ((int)j != p && (int)j != n && (s & R[j].sat) == s) adj = false;
            if (!adj) continue;
            Gen g;
            g.v = comb(val[p], R[n].v, val[n], R[p].v);
            g.sat = s; g.sat.set(k);
            out.push_back(g);
            if (out.size() > cap) throw Over();
        }
        R.swap(out);
    }
    for (Gen &g : L) lines.push_back(g.v);
    for (Gen &g : R) rays.push_back(g.v);
}
}
// exact (rational) convex hull of k non-empty polyhedra; number of rows, -1 gave up
extern "C" int p_hull2(int n, int k, const int32_t *ms, const int64_t *rows, const int32_t *eq, int cap, int maxrows, int64_t *orows, int32_t *oeq) {
    try {
        int d = n + 1;
        std::vector<Vec> dual; std::vector<char> deq;
        std::vector<Vec> dl, dr;
        for (int q = 0; q < k; ++q) {
            std::vector<Vec> cons; std::vector<char> ce;
            for (int pass = 0; pass < 2; ++pass)
                for (int i = 0; i < ms[q]; ++i)
                    if ((eq[i] != 0) == (pass == 0)) {
                        cons.push_back(Vec(rows + (int64_t)i * d, rows + (int64_t)(i + 1) * d));
                        ce.push_back(pass == 0);
                    }
            Vec x0(d, 0); x0[0] = 1;
            cons.push_back(x0); ce.push_back(0);
            rows += (int64_t)ms[q] * d; eq += ms[q];
            std::vector<Vec> L, R;
            dd(d, cons, ce, L, R, cap);
            bool pt = false;
            for (Vec &r : R) pt |= r[0] > 0;
            if (!pt) continue;              // rationally empty
            for (Vec &l : L) dl.push_back(l);
            for (Vec &r : R) dr.push_back(r);
        }
        std::sort(dr.begin(), dr.end());
        dr.erase(std::unique(dr.begin(), dr.end()), dr.end());
        for (Vec &l : dl) { dual.push_back(l); deq.push_back(1); }
        for (Vec &r : dr) { dual.push_back(r); deq.push_back(0); }
        if (dual.empty()) return -2;
        std::vector<Vec> E, I;
        dd(d, dual, deq, E, I, cap);
        int m = 0;
        for (int pass = 0; pass < 2; ++pass)
            for (Vec &v : pass ? I : E) {
                bool triv = true;
                for (int j = 1; j <= n; ++j) if (v[j]) triv = false;
                if (triv) continue;
                if (m >= maxrows) return -1;
                for (int j = 0; j <= n; ++j) orows[(int64_t)m * (n + 1) + j] = v[j];
                oeq[m++] = !pass;
            }
        return m;
    } catch (Over &) { return -1; }
}
