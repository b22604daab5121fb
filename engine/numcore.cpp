// Numeric kernel of the abstract domain: entailment between linear inequalities over natural
// numbers (Fourier-Motzkin elimination with integer tightening, model-based refutation first) and
// the selection of the inequalities kept at a join.  Loaded through ctypes by num.py.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
typedef long long i64;
typedef std::vector<i64> Row;  // [c, k0, k1, ...]
static i64 gcdll(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
static i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }
static void norm(Row& r) {
    i64 g = 0;
    for (size_t i = 1; i < r.size(); i++) g = gcdll(g, r[i]);
    if (g > 1) { r[0] = fdiv(r[0], g); for (size_t i = 1; i < r.size(); i++) r[i] /= g; }
}
static bool isconst(const Row& r) { for (size_t i = 1; i < r.size(); i++) if (r[i]) return false; return true; }
// general simplex (Bland's rule) on {r >= 0, symbols >= 0} over the rationals with an integer tableau.
// 1: infeasible; 0: feasible with an integer point (stored in pt); -1: undecided (fractional vertex / overflow)
static int simplex(const std::vector<Row>& in, int n, Row& pt) {
    int m = (int)in.size();
    int w = n + 1;
    std::vector<i64> T((size_t)m * w), D(m, 1);
    std::vector<int> basic(m), nb(w);
    for (int i = 0; i < m; i++) { for (int j = 0; j <= n; j++) T[(size_t)i * w + j] = in[i][j]; basic[i] = n + 1 + i; }
    for (int j = 1; j <= n; j++) nb[j] = j;
    for (int iter = 0; iter < 400; iter++) {
        int pr = -1;
        for (int i = 0; i < m; i++) if (T[(size_t)i * w] < 0 && (pr < 0 || basic[i] < basic[pr])) pr = i;
        if (pr < 0) {
            pt.assign(n + 1, 0);
            for (int i = 0; i < m; i++) if (basic[i] <= n) {
                if (T[(size_t)i * w] % D[i]) return -1;
                pt[basic[i]] = T[(size_t)i * w] / D[i];
            }
            return 0;
        }
        i64* P = &T[(size_t)pr * w];
        int pc = -1;
        for (int j = 1; j <= n; j++) if (P[j] > 0 && (pc < 0 || nb[j] < nb[pc])) pc = j;
        if (pc < 0) return 1;
        i64 k = P[pc], d = D[pr];
        // k * x = d * s - c - rest
        for (int j = 0; j <= n; j++) P[j] = j == pc ? d : -P[j];
        D[pr] = k;
        std::swap(basic[pr], nb[pc]);
        i64 g0 = D[pr];
        for (int j = 0; j <= n && g0 != 1; j++) g0 = gcdll(g0, P[j]);
        if (g0 > 1) { for (int j = 0; j <= n; j++) P[j] /= g0; D[pr] /= g0; }
        k = D[pr];
        for (int i = 0; i < m; i++) if (i != pr) {
            i64* R = &T[(size_t)i * w];
            i64 a = R[pc];
            if (!a) continue;
            R[pc] = 0;
            i64 g = 0;
            bool big = false;
            for (int j = 0; j <= n; j++) {
                __int128 x = (__int128)R[j] * k + (__int128)a * P[j];
                if (x > (__int128)1 << 60 || x < -((__int128)1 << 60)) { big = true; break; }
                R[j] = (i64)x;
                if (g != 1 && R[j]) g = gcdll(g, R[j]);
            }
            __int128 dd = (__int128)D[i] * k;
            if (big || dd > (__int128)1 << 60) return -1;
            D[i] = (i64)dd;
            if (D[i] != 1 && g != 1) {
                g = gcdll(g, D[i]);
                if (g > 1) { for (int j = 0; j <= n; j++) R[j] /= g; D[i] /= g; }
            }
        }
    }
    return -1;
}
// {r >= 0}, all symbols >= 0 : proved to have no integer solution?
static bool infeasible(const std::vector<Row>& in, int n, Row* witness = nullptr) {
    {
        std::vector<Row> q;
        for (const Row& r : in) { if (isconst(r)) { if (r[0] < 0) return true; } else q.push_back(r); }
        Row pt;
        int s = simplex(q, n, pt);
        if (s == 1) return true;
        if (s == 0) { if (witness) *witness = pt; return false; }
    }
    std::set<Row> cs;
    std::vector<char> used(n + 1, 0);
    for (Row r : in) {
        norm(r);
        if (isconst(r)) { if (r[0] < 0) return true; continue; }
        for (int i = 1; i <= n; i++) if (r[i]) used[i] = 1;
        cs.insert(r);
    }
    for (int i = 1; i <= n; i++) if (used[i]) { Row r(n + 1, 0); r[i] = 1; cs.insert(r); }
    for (;;) {
        int best = -1; long bc = 0;
        for (int v = 1; v <= n; v++) if (used[v]) {
            long p = 0, m = 0;
            for (auto& r : cs) { if (r[v] > 0) p++; else if (r[v] < 0) m++; }
            long c = p * m - p - m;
            if (best < 0 || c < bc) { best = v; bc = c; }
        }
        if (best < 0) return false;
        used[best] = 0;
        std::vector<const Row*> P, N; std::set<Row> rest;
        for (auto& r : cs) { if (r[best] > 0) P.push_back(&r); else if (r[best] < 0) N.push_back(&r); else rest.insert(r); }
        if (P.size() * N.size() > 900) return false;
        for (auto* p : P) for (auto* q : N) {
            i64 a = (*p)[best], b = -(*q)[best];
            Row r(n + 1);
            for (int i = 0; i <= n; i++) {
                __int128 x = (__int128)(*p)[i] * b + (__int128)(*q)[i] * a;
                if (x > (__int128)1 << 60 || x < -((__int128)1 << 60)) return false;
                r[i] = (i64)x;
            }
            norm(r);
            if (isconst(r)) { if (r[0] < 0) return true; } else rest.insert(r);
        }
        if (rest.size() > 1500) return false;
        cs.swap(rest);
    }
}
static long nfm = 0, nent = 0;
extern "C" long nc_fm() { return nfm; }
extern "C" long nc_ent() { return nent; }
struct Ctx {
    int n; std::vector<Row> cons; mutable std::vector<Row> pts;
    Ctx(int n_, std::vector<Row> c, int ns = 3) : n(n_), cons(std::move(c)) { sample(ns); }
    i64 at(const Row& r, const Row& m) const { i64 x = r[0]; for (int i = 1; i <= n; i++) x += r[i] * m[i]; return x; }
    void sample(int ns) {
        uint64_t rs = 88172645463325252ull;
        for (int s = 0; s < ns; s++) {
            Row m(n + 1, 0);
            for (int i = 1; i <= n; i++)
                m[i] = s == 0 ? 0 : s == 1 ? 1 : s == 2 ? 5 : s == 3 ? (7 * i + 3) % 11 : s == 4 ? (11 * (n - i) + 2) % 17 : (rs ^= rs << 13, rs ^= rs >> 7, rs ^= rs << 17, (rs & 3) ? (i64)((rs >> 8) % (s & 1 ? 4 : 40)) : 0);
            bool ok = false;
            for (size_t it = 0; it < 2 * cons.size() + 6; it++) {
                ok = true;
                for (auto& e : cons) {
                    i64 d = at(e, m);
                    if (d < 0) {
                        ok = false; bool done = false;
                        for (int v = 1; v <= n && !done; v++) if (e[v] > 0) { m[v] += (-d + e[v] - 1) / e[v]; done = true; }
                        for (int v = 1; v <= n && !done; v++) if (e[v] < 0 && m[v] > 0) { i64 k = -e[v]; i64 x = std::min(m[v], (-d + k - 1) / k); m[v] -= x; done = true; }
                        if (!done) { it = 1 << 30; break; }
                    }
                }
                if (ok) break;
            }
            if (ok) { for (auto& e : cons) if (at(e, m) < 0) ok = false; }
            if (ok) pts.push_back(m);
        }
    }
    bool entails(const Row& e) const {
        bool neg = false;
        for (int i = 1; i <= n; i++) if (e[i] < 0) neg = true;
        if (!neg && e[0] >= 0) return true;
        if (isconst(e)) return e[0] >= 0;
        nent++;
        for (auto& m : pts) if (at(e, m) < 0) return false;
        for (auto& c : cons) {
            bool ok = e[0] >= c[0];
            for (int i = 1; i <= n && ok; i++) ok = e[i] >= c[i];
            if (ok) return true;
        }
        nfm++;
        // relevant constraints
        std::vector<char> want(n + 1, 0), in(cons.size(), 0);
        for (int i = 1; i <= n; i++) want[i] = e[i] != 0;
        std::vector<Row> sel; bool ch = true;
        while (ch) {
            ch = false;
            for (size_t k = 0; k < cons.size(); k++) if (!in[k]) {
                bool hit = false;
                for (int i = 1; i <= n; i++) if (cons[k][i] && want[i]) hit = true;
                if (hit) { in[k] = 1; sel.push_back(cons[k]); for (int i = 1; i <= n; i++) if (cons[k][i] && !want[i]) want[i] = 1; ch = true; }
            }
        }
        Row ng(n + 1);
        for (int i = 0; i <= n; i++) ng[i] = -e[i];
        ng[0] -= 1;
        sel.push_back(ng);
        Row w;
        bool r = infeasible(sel, n, &w);
        if (!r && !w.empty() && pts.size() < 400) {
            // a model of the relevant part: usable as a refuting sample when it satisfies everything
            bool ok = true;
            for (auto& c : cons) if (at(c, w) < 0) { ok = false; break; }
            if (ok) pts.push_back(w);
        }
        return r;
    }
};
static std::vector<Row> rows(const i64* p, int m, int n) {
    std::vector<Row> r(m);
    for (int i = 0; i < m; i++) r[i] = Row(p + (size_t)i * (n + 1), p + (size_t)(i + 1) * (n + 1));
    return r;
}
extern "C" int nc_infeasible(int n, int m, const i64* cons) { return infeasible(rows(cons, m, n), n); }
extern "C" int nc_entails(int n, int m, const i64* cons, const i64* e) {
    Ctx c(n, rows(cons, m, n)); return c.entails(Row(e, e + n + 1));
}
// join: m slots with values v1 (over n1 symbols), v2 (n2), vn (n3); kind[i] = 0 integer slot, k>0 = member of sequence k
// reflen[i] = 1 when slot i+1 is the length belonging to the start offset i
extern "C" int nc_join(int m, int n1, const i64* v1, int m1, const i64* c1, int n2, const i64* v2, int m2, const i64* c2,
                       int n3, const i64* vn, const int* kind, i64* out, int maxout) {
    std::vector<Row> V1 = rows(v1, m, n1), V2 = rows(v2, m, n2), VN = rows(vn, m, n3);
    Ctx A(n1, rows(c1, m1, n1), 60), B(n2, rows(c2, m2, n2), 60);
    struct Cand { Row e, a, b; };
    std::vector<Cand> cand;
    auto sub = [](const Row& x, const Row& y) { Row r(x); for (size_t i = 0; i < r.size(); i++) r[i] -= y[i]; return r; };
    auto add = [](const Row& x, const Row& y) { Row r(x); for (size_t i = 0; i < r.size(); i++) r[i] += y[i]; return r; };
    std::vector<int> var;
    { std::set<Row> u; for (int i = 0; i < m; i++) if (!isconst(VN[i]) && u.insert(VN[i]).second) var.push_back(i); }
    for (int i : var) cand.push_back({VN[i], V1[i], V2[i]});
    // upper bounds by the constants in sight
    std::set<i64> consts = {0, 1};
    for (int i = 0; i < m; i++) if (isconst(VN[i])) consts.insert(VN[i][0]);
    for (int i : var) for (i64 c : consts) {
        Cand k{VN[i], V1[i], V2[i]};
        for (Row* r : {&k.e, &k.a, &k.b}) { for (auto& x : *r) x = -x; (*r)[0] += c; }
        cand.push_back(k);
    }
    for (int i : var) for (int j : var) if (i != j) cand.push_back({sub(VN[i], VN[j]), sub(V1[i], V1[j]), sub(V2[i], V2[j])});
    for (int a = 0; a < m;) {
        if (kind[a] <= 0) { a++; continue; }
        int b = a;
        Row p(n3 + 1, 0), p1(n1 + 1, 0), p2(n2 + 1, 0);
        while (b < m && kind[b] == kind[a]) {
            p = add(p, VN[b]); p1 = add(p1, V1[b]); p2 = add(p2, V2[b]);
            for (int q = 0; q < m; q++) if (kind[q] <= 0) {
                cand.push_back({sub(VN[q], p), sub(V1[q], p1), sub(V2[q], p2)});
                cand.push_back({sub(p, VN[q]), sub(p1, V1[q]), sub(p2, V2[q])});
                if (q + 1 < m && kind[q] == -1) {
                    Row x = add(VN[q], VN[q + 1]), x1 = add(V1[q], V1[q + 1]), x2 = add(V2[q], V2[q + 1]);
                    cand.push_back({sub(x, p), sub(x1, p1), sub(x2, p2)});
                    cand.push_back({sub(p, x), sub(p1, x1), sub(p2, x2)});
                }
            }
            b++;
        }
        a = b;
    }
    std::set<Row> seen; std::vector<Row> keep;
    for (auto& c : cand) {
        if (isconst(c.e) || !seen.insert(c.e).second) continue;
        if (!A.entails(c.a) || !B.entails(c.b)) continue;
        Row e = c.e, a = c.a, b = c.b;
        a[0] -= 1; b[0] -= 1;
        if (A.entails(a) && B.entails(b)) { e[0] -= 1; keep.push_back(e); continue; }
        bool triv = e[0] >= 0;
        for (size_t i = 1; i < e.size(); i++) if (e[i] < 0) triv = false;
        if (!triv) keep.push_back(e);
    }
    std::sort(keep.begin(), keep.end(), [](const Row& x, const Row& y) {
        int a = 0, b = 0; for (size_t i = 1; i < x.size(); i++) { a += x[i] != 0; b += y[i] != 0; }
        return a != b ? a < b : x < y; });
    std::vector<Row> fin;
    for (auto& e : keep) {
        Ctx K(n3, fin);
        if (!K.entails(e)) fin.push_back(e);
    }
    // drop those implied by the others
    for (size_t i = 0; i < fin.size();) {
        std::vector<Row> o(fin); o.erase(o.begin() + i);
        Ctx K(n3, o);
        if (K.entails(fin[i])) fin = o; else i++;
    }
    if ((int)fin.size() > maxout) return -1;
    for (size_t i = 0; i < fin.size(); i++) memcpy(out + i * (n3 + 1), fin[i].data(), sizeof(i64) * (n3 + 1));
    return (int)fin.size();
}
