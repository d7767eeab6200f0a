// Random graphs of many shapes, as plain edge lists; used by C50..C56.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <set>
#include <vector>
typedef std::pair<int, int> E2;
typedef std::vector<E2> EL;
template<typename T> void shuffle_c(pbt::Ctx& c, std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]); }
// rooted tree shapes; parent[i] < i, parent[0] = -1; roots: forest with some chance
inline std::vector<int> gen_parents(pbt::Ctx& c, int n, bool forest) {
    std::vector<int> p(n, -1); int shape = (int)c.below(6), k = 1 + (int)c.below(4);
    for (int i = 1; i < n; i++) { if (forest && c.chance(1, 6)) continue;
        p[i] = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : shape == 3 ? std::max(0, i - 1 - (int)c.below(k + 1)) : shape == 4 ? (i % k == 0 || i == 1 ? std::max(0, i - k) : i - 1) : (int)c.below(i); }
    return p; }
// simple undirected graph: each edge once, labels permuted
inline EL gen_simple(pbt::Ctx& c, int n, bool relabel = true) {
    std::set<E2> s; auto add = [&](int u, int v) { if (u != v && u >= 0 && v >= 0 && u < n && v < n) s.insert({ std::min(u, v), std::max(u, v) }); };
    int shape = (int)c.below(9);
    if (n > 0) switch (shape) {
    case 0: { int den = (int)c.pick<int>({ 2, 3, 4, 8 }), num = 1 + (int)c.below(den - 1); for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) if (c.chance(num, den)) add(u, v); break; }
    case 1: case 2: { auto p = gen_parents(c, n, shape == 2); for (int i = 0; i < n; i++) add(i, p[i]); int ex = (int)c.below(1 + (c.coin() ? n : 3)); for (int i = 0; i < ex; i++) add((int)c.below(n), (int)c.below(n)); break; }
    case 3: { // chains of cycles, bridges and blocks glued at vertices
        int used = 1; while (used < n) { int at = (int)c.below(used), len = 1 + (int)c.below(5); int first = used; for (int i = 0; i < len && used < n; i++, used++) add(used, i == 0 ? at : used - 1); if (c.coin()) add(used - 1, at); if (c.chance(1, 4)) add(first, (int)c.below(used)); if (c.chance(1, 10) && used < n) used++; } break; }
    case 4: for (int u = 0; u < n; u++) add(u, (u + 1) % n); if (c.coin()) add((int)c.below(n), (int)c.below(n)); break;
    case 5: { int a = (int)c.below(n + 1); for (int u = 0; u < a; u++) for (int v = a; v < n; v++) if (c.chance(2, 3)) add(u, v); break; }
    case 6: { int w = 1 + (int)c.below(4); for (int u = 0; u < n; u++) { if (u % w != w - 1) add(u, u + 1); add(u, u + w); } break; }
    case 7: { int k = 2 + (int)c.below(4); for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) if (u / k == v / k) add(u, v); for (int i = (int)c.below(4); i > 0; i--) add((int)c.below(n), (int)c.below(n)); break; }
    default: for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) add(u, v); for (int i = (int)c.below(4); i > 0 && s.size(); i--) s.erase(c.coin() ? *s.begin() : *std::prev(s.end())); }
    EL e(s.begin(), s.end()); if (relabel && n > 1) { auto p = c.permutation(n); for (auto& x : e) { x = { (int)p[x.first], (int)p[x.second] }; if (c.coin()) std::swap(x.first, x.second); } shuffle_c(c, e); }
    return e; }
// directed graph, possibly with loops and parallel edges
inline EL gen_digraph(pbt::Ctx& c, int n, bool loops, bool parallel) {
    EL e; if (!n) return e; if (c.chance(1, 3)) { e = gen_simple(c, n); EL x; for (auto& q : e) { int k = (int)c.below(4); if (k != 1) x.push_back(q); if (k >= 2 - (int)c.coin()) x.push_back({ q.second, q.first }); } e = x; }
    else { int m = (int)c.below(1 + n * (1 + c.below(4))); bool local = c.coin(); for (int i = 0; i < m; i++) { int u = (int)c.below(n), v = local ? (int)((u + 1 + c.below(3)) % n) : (int)c.below(n); if (c.chance(1, 6)) std::swap(u, v); e.push_back({ u, v }); } }
    if (loops && c.chance(1, 3)) for (int i = 0; i < 2; i++) { int u = (int)c.below(n); e.push_back({ u, u }); }
    if (parallel && e.size() && c.chance(1, 3)) for (int i = 0; i < 3; i++) e.push_back(e[c.below(e.size())]);
    shuffle_c(c, e); if (!loops) e.erase(std::remove_if(e.begin(), e.end(), [](const E2& x) { return x.first == x.second; }), e.end());
    if (!parallel) { std::set<E2> s; EL x; for (auto& q : e) if (s.insert(q).second) x.push_back(q); e = x; }
    return e; }
inline EL gen_dag(pbt::Ctx& c, int n, bool parallel) {
    EL e = gen_digraph(c, n, false, parallel); if (n < 1) return e; auto p = c.permutation(n); for (auto& x : e) { if (x.first > x.second) std::swap(x.first, x.second); } EL r; std::set<E2> s; for (auto& x : e) if (parallel || s.insert(x).second) r.push_back({ (int)p[x.first], (int)p[x.second] }); return r; }
// reach[u][v]: path of one or more edges
inline std::vector<std::vector<char>> reach(int n, const EL& e) { std::vector<std::vector<char>> r(n, std::vector<char>(n)); for (auto& x : e) r[x.first][x.second] = 1; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1; return r; }
inline EL both(const EL& e) { EL r = e; for (auto& x : e) r.push_back({ x.second, x.first }); return r; }
inline std::vector<int> comps(int n, const EL& e, int skipv = -1, E2 skipe = { -1, -1 }) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; auto f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }; for (auto& x : e) { if (x.first == skipv || x.second == skipv) continue; if (x == skipe || E2(x.second, x.first) == skipe) continue; p[f(x.first)] = f(x.second); } for (int i = 0; i < n; i++) p[i] = f(i); return p; }
inline int num_comps(int n, const EL& e, int skipv = -1, E2 skipe = { -1, -1 }) { auto p = comps(n, e, skipv, skipe); int k = 0; for (int i = 0; i < n; i++) if (p[i] == i && i != skipv) k++; return k; }
