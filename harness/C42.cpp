// C42: range minimum queries, suffix arrays and palindrome trees against their definitions.
#include "pbt.h"
#include <memory>
#include <map>
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/palindrome_tree.h"
using namespace altruct::container;
// range minimum
template<typename V, typename CMP, int B> static void rmq(pbt::Ctx& c) {
    typedef direct_rmq<V, CMP, int, B> T; CMP cmp; std::unique_ptr<T> t(new T()); int rounds = (int)c.range(1, 3); int biggest = 0; for (int r = 0; r < rounds; r++) { int n = (int)c.pick<int64_t>({ c.range(1, 4 * B), c.range(1, 3 * B), c.range(1, 40 * B) }); int range = (int)c.pick<int>({ 1, 3, 20, 1000000 }); std::vector<V> a(n); int style = (int)c.below(4); for (int i = 0; i < n; i++) a[i] = (V)(style == 0 ? c.range(-range, range) : style == 1 ? i / (1 + range % 7) : style == 2 ? -i : c.any<int32_t>()); if (n < 60) SHOW(a); else SHOW(n); t->build(a.begin(), a.end()); biggest = std::max(biggest, n); if (c.coin()) { std::unique_ptr<T> q; if (c.coin()) q.reset(new T(*t)); else { q.reset(new T()); if (c.coin()) q->build(a.begin(), a.begin() + 1); *q = *t; } t = std::move(q); } CHECK((int)t->size() >= n);
        auto query = [&](int l, int e) { int m = l; for (int i = l + 1; i < e; i++) if (cmp(a[i], a[m])) m = i; int g = t->get_index(l, e); CHECK_MSG(g >= l && g < e, "index " << g << " outside [" << l << ", " << e << ")"); CHECK_MSG(!cmp(a[m], a[g]) && !cmp(a[g], a[m]), "minimum of [" << l << ", " << e << ") is at " << m << ", not at " << g); V v = t->get_value(l, e); CHECK_EQ(v, a[m]); }; if (n <= 24) { for (int l = 0; l < n; l++) for (int e = l + 1; e <= n; e++) query(l, e); } else if (n <= 400 && c.chance(1, 6)) { for (int l = (int)c.below(3); l < n; l += (int)c.range(1, 3)) { int m = l; for (int e = l + 1; e <= n; e++) { if (cmp(a[e - 1], a[m])) m = e - 1; int g = t->get_index(l, e); CHECK_MSG(g >= l && g < e && !cmp(a[m], a[g]) && !cmp(a[g], a[m]), "minimum of [" << l << ", " << e << ") is at " << m << ", not at " << g); } } } else for (int k = 0; k < 30; k++) { int l = (int)c.below(n), e = (int)c.range(l + 1, n); query(l, e); } } c.nontrivial(biggest > 2 * B); c.label("more than four blocks", biggest > 4 * B); }
PROP(range_minimum, 350000, 8750000) { switch (c.below(7)) { case 0: rmq<int, std::less<int>, 8>(c); break; case 1: rmq<int, std::greater<int>, 8>(c); break; case 2: rmq<int64_t, std::less<int64_t>, 1>(c); break; case 3: rmq<int, std::less<int>, 2>(c); break; case 4: rmq<double, std::less<double>, 3>(c); break; case 5: rmq<int, std::less<int>, 5>(c); break; default: rmq<int16_t, std::greater<int16_t>, 4>(c); } }
// suffix arrays
template<typename A, typename S> static S gen_text(pbt::Ctx& c, int n, int al, int base) { S s; int style = (int)c.below(5); auto let = [&](int k) { return (A)(base + k); }; if (style == 0) for (int i = 0; i < n; i++) s.push_back(let((int)c.below(al))); else if (style == 1) { int p = (int)c.range(1, 6); for (int i = 0; i < n; i++) s.push_back(i < p ? let((int)c.below(al)) : s[i - p]); if (n && c.coin()) s[c.below(n)] = let((int)c.below(al)); } else if (style == 2) { S a, b; b.push_back(let(0)); a = b; a.push_back(let(al > 1)); while ((int)a.size() < n) { S t = a; a.insert(a.end(), b.begin(), b.end()); b = t; } s.assign(a.begin(), a.begin() + n); } else if (style == 3) { S h; for (int i = 0; i < n / 2; i++) h.push_back(let((int)c.below(al))); s = h; if (n % 2) s.push_back(let((int)c.below(al))); s.insert(s.end(), h.rbegin(), h.rend()); } else { while ((int)s.size() < n) { int k = (int)c.range(1, 9); A x = let((int)c.below(al)); while (k-- && (int)s.size() < n) s.push_back(x); } } return s; }
template<typename A, typename IX> static void suffixes(pbt::Ctx& c, int al, int base, bool big) {
    int n = big ? (int)c.range(100, 1200) : (int)c.pick<int64_t>({ c.range(0, 8), c.range(0, 30), c.range(0, 60) }); auto s = gen_text<A, std::vector<A>>(c, n, al, base); if (n < 70) c.show("text", std::vector<int64_t>(s.begin(), s.end())); else SHOW(n); typedef suffix_array<A, IX> T; std::unique_ptr<T> t(new T(s.begin(), s.end())); if (c.chance(1, 3)) { std::unique_ptr<T> q(new T(*t)); t = std::move(q); } CHECK_EQ((int)t->size(), n); std::vector<int> sa(n + 1); for (int i = 0; i <= n; i++) sa[i] = i; std::vector<int> ex = sa; if (!big) { std::sort(ex.begin(), ex.end(), [&](int a, int b) { return std::lexicographical_compare(s.begin() + a, s.end(), s.begin() + b, s.end()); }); for (int k = 0; k <= n; k++) CHECK_MSG((int)t->get_kth_suffix((IX)k) == ex[k], "suffix " << k << " starts at " << (int)t->get_kth_suffix((IX)k) << ", should be " << ex[k]); } else { std::vector<char> seen(n + 1); for (int k = 0; k <= n; k++) { int p = (int)t->get_kth_suffix((IX)k); CHECK(p >= 0 && p <= n && !seen[p]); seen[p] = 1; ex[k] = p; if (k) CHECK_MSG(std::lexicographical_compare(s.begin() + ex[k - 1], s.end(), s.begin() + p, s.end()), "suffixes " << k - 1 << " and " << k << " are out of order"); } } for (int k = 0; k <= n; k++) CHECK_EQ((int)t->get_suffix_order((IX)ex[k]), k);
    for (int q = 0; q < 25; q++) { int i = (int)c.below(n + 1), j = (int)c.below(n + 1); int l = 0; while (std::max(i, j) + l < n && s[i + l] == s[j + l]) l++; CHECK_MSG((int)t->get_lcp((IX)i, (IX)j) == l, "lcp(" << i << ", " << j << ") = " << (int)t->get_lcp((IX)i, (IX)j) << ", should be " << l); int e1 = (int)c.range(i, n), e2 = (int)c.range(j, n); if (c.chance(1, 3)) { e1 = std::min(n, i + l + (int)c.below(2)); e2 = std::min(n, j + l + (int)c.below(2)); } bool lt = std::lexicographical_compare(s.begin() + i, s.begin() + e1, s.begin() + j, s.begin() + e2), gt = std::lexicographical_compare(s.begin() + j, s.begin() + e2, s.begin() + i, s.begin() + e1); int r = t->compare_substrings((IX)i, (IX)e1, (IX)j, (IX)e2); CHECK_MSG((r < 0) == lt && (r > 0) == gt, "compare_substrings(" << i << ", " << e1 << ", " << j << ", " << e2 << ") = " << r); } c.nontrivial(n > 6); c.label("empty text", n == 0); }
PROP(suffix_arrays, 360000, 9000000) { switch (c.below(6)) { case 0: suffixes<char, int>(c, 2, 'a', false); break; case 1: suffixes<char, int>(c, 26, 'a', false); break; case 2: suffixes<uint8_t, int>(c, (int)c.range(1, 256), 0, false); break; case 3: suffixes<int, int>(c, (int)c.range(1, 5000), 0, false); break; case 4: suffixes<char, int64_t>(c, 3, 0, false); break; default: suffixes<uint8_t, int>(c, 2, 254, false); } }
PROP(long_suffix_arrays, 46000, 1150000) { if (c.coin()) suffixes<char, int>(c, (int)c.range(1, 4), 'a', true); else suffixes<int, int>(c, (int)c.range(2, 3000), 0, true); }
// palindromes
template<int A, typename AL, typename FO> static void pal(pbt::Ctx& c, int al, int base, FO ord) {
    typedef palindrome_tree<A, int, AL> T; int n = (int)c.pick<int64_t>({ c.range(0, 10), c.range(0, 30), c.range(0, 60) }); auto s = gen_text<char, std::string>(c, n, al, base); c.show("text", s); T t; std::map<std::string, std::pair<int, int>> pals; int64_t total = 0; int split = (int)c.below(n + 1); bool ctor = c.coin(); if (ctor) { t = T(s.begin(), s.begin() + split, ord); }
    auto account = [&](int i) { bool fresh = false; for (int b = 0; b <= i; b++) { bool p = true; for (int x = b, y = i; x < y; x++, y--) if (s[x] != s[y]) { p = false; break; } if (!p) continue; total++; auto& e = pals[s.substr(b, i + 1 - b)]; if (e.first++ == 0) { fresh = true; e.second = b; } } return fresh; }; auto longest = [&](int i) { for (int b = 0; b <= i; b++) { std::string x = s.substr(b, i + 1 - b); if (x == std::string(x.rbegin(), x.rend())) return x; } return std::string(); };
    if (ctor) for (int i = 0; i < split; i++) account(i); for (int i = ctor ? split : 0; i < n;) { if (c.chance(1, 4)) { int k = (int)c.range(1, n - i), f = 0; for (int j = 0; j < k; j++) f += account(i + j); CHECK_EQ(t.add_all(s.begin() + i, s.begin() + i + k, ord), f); i += k; } else { bool f = account(i); CHECK_EQ(c.coin() ? t.add(s[i], ord) : t.add(ord(s[i])), (int)f); i++; } CHECK_EQ(t.total(), total); CHECK_EQ(t.distinct(), (int)pals.size()); CHECK_EQ(t.size() - t.first(), t.distinct()); std::string l = longest(i - 1); auto& nd = t[t.longest_suffix()]; CHECK_EQ(nd.len, (int)l.size()); CHECK_EQ(s.substr(nd.pos, nd.len), l); }
    CHECK_EQ(t.total(), total); CHECK_EQ(t.distinct(), (int)pals.size()); t.propagate(); std::set<std::string> seen; for (int k = t.first(); k < t.size(); k++) { auto& d = t[k]; CHECK(d.pos >= 0 && d.len > 0 && d.pos + d.len <= n); std::string w = s.substr(d.pos, d.len); CHECK_MSG(pals.count(w), w << " is not a palindrome of the text"); CHECK(seen.insert(w).second); CHECK_EQ(d.cnt, pals[w].first); CHECK_MSG(d.pos == pals[w].second, "first occurrence of " << w << " at " << d.pos); int depth = 1; std::string ls; for (size_t b = 1; b < w.size(); b++) { std::string x = w.substr(b); if (x == std::string(x.rbegin(), x.rend())) { if (ls.empty()) ls = x; depth++; } } CHECK_EQ(d.depth, depth); auto& sf = t[d.suff]; CHECK_MSG(sf.len == (int)ls.size(), "longest palindromic suffix of " << w); if (sf.len > 0) CHECK_EQ(s.substr(sf.pos, sf.len), ls); for (int x = 0; x < A; x++) if (d.next[x]) { auto& q = t[d.next[x]]; CHECK_EQ(q.len, d.len + 2); std::string u = s.substr(q.pos, q.len); CHECK((int)(AL)ord(u[0]) == x && u.substr(1, d.len) == w); } } c.nontrivial(pals.size() > 4); c.label("many palindromes", total > 3 * n); }
PROP(palindromes, 190000, 4750000) { typedef palindrome_tree<> D; switch (c.below(4)) { case 0: pal<26, uint8_t>(c, 2, 'a', D::ordinal_lower_alpha); break; case 1: pal<26, uint8_t>(c, (int)c.range(1, 26), 'A', D::ordinal_upper_alpha); break; case 2: pal<10, uint8_t>(c, (int)c.range(1, 10), '0', D::ordinal_digit); break; default: pal<256, uint8_t>(c, 3, 'x', [](char x) { return (uint8_t)(x + 135); }); } }
