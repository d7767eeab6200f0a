// Reference implementations shared by the oracles. Independent of the library.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <map>
#include <vector>
namespace ref {
typedef uint64_t u64;
typedef int64_t i64;
inline u64 mulmod(u64 a, u64 b, u64 m) { return (u64)((u128)a * b % m); }
inline u64 powmod(u64 a, u64 e, u64 m) {
    u64 r = 1 % m; a %= m;
    for (; e; e >>= 1) { if (e & 1) r = mulmod(r, a, m); a = mulmod(a, a, m); }
    return r;
}
inline u64 gcd(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
inline u64 absu(i64 x) { return x < 0 ? 0 - (u64)x : (u64)x; }
inline i64 mod(i128 a, i128 m) { i128 r = a % m; if (r < 0) r += m; return (i64)r; }
// floor(sqrt(x)), floor(cbrt(x)) by bisection on exact arithmetic
inline u64 isqrt(u64 x) {
    u64 lo = 0, hi = 4294967296ull; // lo^2 <= x < hi^2
    while (hi - lo > 1) { u64 m = lo + (hi - lo) / 2; if ((u128)m * m <= x) lo = m; else hi = m; }
    return lo;
}
inline u64 icbrt(u64 x) {
    u64 lo = 0, hi = 2642246;
    while (hi - lo > 1) { u64 m = lo + (hi - lo) / 2; if ((u128)m * m * m <= x) lo = m; else hi = m; }
    return lo;
}
// deterministic for all 64-bit integers
inline bool is_prime(u64 n) {
    if (n < 2) return false;
    for (u64 p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { if (n == p) return true; if (n % p == 0) return false; }
    u64 d = n - 1; int s = 0;
    while (d % 2 == 0) d /= 2, s++;
    for (u64 a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) {
        u64 x = powmod(a, d, n);
        if (x == 1 || x == n - 1) continue;
        bool ok = false;
        for (int r = 1; r < s && !ok; r++) { x = mulmod(x, x, n); ok = x == n - 1; }
        if (!ok) return false;
    }
    return true;
}
inline u64 next_prime(u64 n) { while (!is_prime(n)) n++; return n; }
// sorted (prime, exponent); trial division, for n with at most one prime factor above ~1e6
inline std::vector<std::pair<u64, int>> factor(u64 n) {
    std::vector<std::pair<u64, int>> r;
    for (u64 p = 2; p * p <= n; p++) {
        if (p > 1000 && (p % 1000) < 2 && is_prime(n)) break;
        if (n % p) continue;
        int e = 0;
        while (n % p == 0) n /= p, e++;
        r.push_back({ p, e });
    }
    if (n > 1) r.push_back({ n, 1 });
    return r;
}
inline u64 ipow(u64 b, int e) { u64 r = 1; while (e-- > 0) r *= b; return r; }
inline u64 phi(u64 n) { u64 r = n; for (auto& f : factor(n)) r = r / f.first * (f.first - 1); return r; }
inline u64 lambda(u64 n) {
    u64 r = 1;
    for (auto& f : factor(n)) {
        u64 t = ipow(f.first, f.second - 1) * (f.first - 1);
        if (f.first == 2 && f.second > 2) t /= 2;
        r = r / gcd(r, t) * t;
    }
    return r;
}
inline int mu(u64 n) { int r = 1; for (auto& f : factor(n)) { if (f.second > 1) return 0; r = -r; } return r; }
inline std::vector<u64> divisors(u64 n) {
    std::vector<u64> d{ 1 };
    for (auto& f : factor(n)) {
        size_t k = d.size(); u64 q = 1;
        for (int e = 1; e <= f.second; e++) { q *= f.first; for (size_t i = 0; i < k; i++) d.push_back(d[i] * q); }
    }
    std::sort(d.begin(), d.end());
    return d;
}
// number of residues etc. by table, for sieves
inline const std::vector<int>& spf_table() { // smallest prime factor up to 2^20
    static std::vector<int> t;
    if (t.empty()) {
        t.assign(1 << 20, 0);
        for (int i = 2; i < (int)t.size(); i++) if (!t[i]) for (int j = i; j < (int)t.size(); j += i) if (!t[j]) t[j] = i;
    }
    return t;
}
} // ref
