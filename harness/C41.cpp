// C41: prefix tree and Aho-Corasick automaton against sets of strings and naive matching.
#include "pbt.h"
#include <memory>
#include <map>
#include <set>
#include "altruct/structure/container/prefix_tree.h"
#include "altruct/structure/container/aho_corasick_trie.h"
using namespace altruct::container;
static std::string word(pbt::Ctx& c, const std::string& al, int mx) { return c.str(0, mx, al); }
// the numbering of the words is part of the interface: 1-based, in order of insertion, the last word takes the number of an erased one
struct Model { std::vector<std::string> w{ "" }; std::map<std::string, int> id; int add(const std::string& s) { if (s.empty()) return 0; auto it = id.find(s); if (it != id.end()) return it->second; w.push_back(s); return id[s] = (int)w.size() - 1; } int find(const std::string& s) const { auto it = id.find(s); return it == id.end() ? 0 : it->second; } int erase(int i) { if (!i) return 0; std::string s = w[i]; id.erase(s); if (i != (int)w.size() - 1) { w[i] = w.back(); id[w[i]] = i; } w.pop_back(); return i; } int letters() const { std::set<std::string> p; for (auto& e : id) for (size_t k = 1; k <= e.first.size(); k++) p.insert(e.first.substr(0, k)); return (int)p.size(); } };
template<typename T, typename FO, typename FL> static void check_tree(pbt::Ctx& c, const T& t, const Model& m, FO ord, FL let) { CHECK_EQ((int)t.num_words(), (int)m.w.size() - 1); CHECK_EQ((int)t.num_letters(), m.letters()); for (size_t i = 1; i < m.w.size(); i++) { CHECK_EQ(t.get((int)i, let), m.w[i]); CHECK_EQ((int)t.find(m.w[i], ord), (int)i); } std::vector<std::pair<std::string, int>> got, exp(m.id.begin(), m.id.end()); t.for_each([&](const std::string& w, int id) { got.push_back({ w, id }); }, let); CHECK_EQ(got, exp); }
template<typename T, typename FO, typename FL> static void tree(pbt::Ctx& c, const std::string& al, FO ord, FL let) {
    std::unique_ptr<T> tp(new T()); Model m; int n = (int)c.range(1, 25), mx = (int)c.pick<int>({ 3, 5, 9 }); std::vector<std::pair<std::unique_ptr<T>, Model>> old; int erased = 0, copies = 0; for (int i = 0; i < n; i++) { T& t = *tp; int op = (int)c.weighted({ 8, 3, 3, 3, 3, 2, 1, 1 }); c.show("op", op); switch (op) {
        case 0: { std::string s = word(c, al, mx); SHOW(s); int e = m.add(s); CHECK_EQ((int)(c.coin() ? t.add(s, ord) : t.add(s.begin(), s.end(), ord)), e); break; }
        case 1: { std::string s = word(c, al, 3); int id = (int)c.below(m.w.size()); c.show("append", std::make_pair(id, s)); int e = m.add(m.w[id] + s); CHECK_EQ((int)(c.coin() ? t.append(id, s, ord) : t.append(id, s.begin(), s.end(), ord)), e); break; }
        case 2: { std::string s = c.chance(1, 2) && m.w.size() > 1 ? m.w[c.below(m.w.size())].substr(0, c.range(0, mx)) : word(c, al, mx); SHOW(s); CHECK_EQ((int)(c.coin() ? t.find(s, ord) : t.find(s.begin(), s.end(), ord)), m.find(s)); break; }
        case 3: { int id = (int)c.below(m.w.size()); c.show("erase", id); if (id) erased++; CHECK_EQ((int)t.erase(id), m.erase(id)); break; }
        case 4: { std::string s = c.coin() && m.w.size() > 1 ? m.w[c.below(m.w.size())] : word(c, al, mx); c.show("erase", s); int e = m.erase(m.find(s)); if (e) erased++; CHECK_EQ((int)(c.coin() ? t.erase(s, ord) : t.erase(s.begin(), s.end(), ord)), e); break; }
        case 5: { int id = (int)c.below(m.w.size()); std::vector<std::pair<std::string, int>> got, exp; for (auto& e : m.id) if (e.first.compare(0, m.w[id].size(), m.w[id]) == 0) exp.push_back({ e.first, e.second }); t.for_each(id, [&](const std::string& w, int k) { got.push_back({ w, k }); }, let); CHECK_EQ(got, exp); break; }
        case 6: t.clear(); m = Model(); break;
        default: { copies++; std::unique_ptr<T> q; if (c.coin()) q.reset(new T(t)); else { q.reset(new T()); q->add(std::string(2, al[0]), ord); *q = t; } if (c.coin()) std::swap(q, tp); if (c.coin()) { check_tree(c, *q, m, ord, let); q.reset(); } else old.push_back({ std::move(q), m }); if (c.chance(1, 4)) { T& self = *tp; *tp = self; } } } check_tree(c, *tp, m, ord, let); }
    for (auto& o : old) check_tree(c, *o.first, o.second, ord, let); c.nontrivial(m.w.size() > 3); c.label("erased", erased > 0); c.label("copied", copies > 0); }
PROP(prefix_trees, 67000, 1675000) { switch (c.below(4)) { case 0: { typedef prefix_tree<> T; tree<T>(c, "abz", T::ordinal_lower_alpha, T::letter_lower_alpha); break; } case 1: { typedef prefix_tree<10> T; tree<T>(c, "0129", T::ordinal_digit, T::letter_digit); break; } case 2: { typedef prefix_tree<26, int64_t> T; tree<T>(c, "AQZ", T::ordinal_upper_alpha, T::letter_upper_alpha); break; } default: { typedef prefix_tree<256, int, uint8_t> T; tree<T>(c, std::string("a\xff\x01\x80 "), [](char x) { return (uint8_t)x; }, [](int o) { return (char)o; }); } } }
template<int A, typename AL, typename IX, typename FO> static void aho(pbt::Ctx& c, const std::string& al, FO ord, bool dflt) {
    typedef aho_corasick_trie<A, IX, AL> T; T t; int n = (int)c.range(0, 10); std::vector<std::string> ws; std::set<std::string> pre; std::map<std::string, int> node; for (int i = 0; i < n; i++) { std::string s; if (i && c.chance(1, 4)) { s = ws[c.below(ws.size())]; if (c.coin()) s = s.substr(c.below(s.size())); if (c.coin()) s = al[c.below(al.size())] + s; if (c.coin()) s += al[c.below(al.size())]; } else s = c.str(1, 6, al); ws.push_back(s); int k = dflt ? (int)t.insert(s.begin(), s.end()) : (int)t.insert(s.begin(), s.end(), ord); if (node.count(s)) CHECK_EQ(node[s], k); node[s] = k; for (size_t j = 1; j <= s.size(); j++) pre.insert(s.substr(0, j)); } SHOW(ws); CHECK_EQ((int)t.size(), (int)pre.size() + 2); std::set<int> ids; for (auto& e : node) CHECK(ids.insert(e.second).second); t.build();
    auto occ = [&](const std::string& s, size_t end) { int64_t r = 0; for (auto& w : ws) if (w.size() <= end && s.compare(end - w.size(), w.size(), w) == 0) r++; return r; }; int q = (int)c.range(1, 3); int64_t most = 0; for (int i = 0; i < q; i++) { std::string s = c.str(0, 25, al); if (n && c.chance(1, 3)) { s += ws[c.below(n)]; s += ws[c.below(n)]; } c.show("text", s); int64_t e = 0; IX cur = t.root(); for (size_t j = 0; j < s.size(); j++) { int64_t o = occ(s, j + 1); e += o; cur = t.move_next(cur, ord(s[j])); CHECK_MSG((int64_t)t[cur].word_cnt == o, "after " << j + 1 << " letters: " << (int64_t)t[cur].word_cnt << " words end here, should be " << o); 
            // the state stands for the longest suffix that is a prefix of a word
            std::string want; for (size_t b = 0; b <= j; b++) if (pre.count(s.substr(b, j + 1 - b))) { want = s.substr(b, j + 1 - b); break; } std::string have; for (IX x = cur; x != t.root(); x = t[x].parent) have += (char)t[x].let; std::reverse(have.begin(), have.end()); std::string w2; for (char ch : want) w2 += (char)(AL)ord(ch); CHECK_EQ(have, w2); } CHECK_EQ((int64_t)(dflt ? t.count_matches(s.begin(), s.end()) : t.count_matches(s.begin(), s.end(), ord)), e); most = std::max(most, e); } c.nontrivial(n > 2 && most > 2); c.label("many matches", most > 20); }
PROP(automaton, 200000, 5000000) { switch (c.below(5)) { case 0: aho<26, char, int>(c, "ab", [](char x) { return (char)(x - 'a'); }, false); break; case 1: aho<26, char, int64_t>(c, "abcz", [](char x) { return (char)(x - 'a'); }, false); break; case 2: aho<128, char, int>(c, "ab\x7f", [](char x) { return x; }, true); break; case 3: aho<256, uint8_t, int>(c, "a\xff\x80", [](char x) { return (uint8_t)x; }, true); break; default: aho<2, char, int>(c, "01", [](char x) { return (char)(x - '0'); }, false); } }
PROP(long_automaton, 57000, 1425000) { typedef aho_corasick_trie<3> T; T t; int n = (int)c.range(1, 60); std::vector<std::string> ws; auto ord = [](char x) { return (char)(x - 'a'); }; for (int i = 0; i < n; i++) { int k = (int)c.below(3); std::string s = k == 0 ? std::string(c.range(1, 60), 'a') : k == 1 ? std::string(c.range(0, 30), 'a') + "b" + std::string(c.range(0, 3), 'a') : c.str(1, 40, "ab"); ws.push_back(s); t.insert(s.begin(), s.end(), ord); } t.build(); std::string s; while (s.size() < 200) s += c.coin() ? std::string(c.range(1, 40), 'a') : c.str(1, 8, "abc"); SHOW(ws); c.show("text", s); int64_t e = 0; for (auto& w : ws) for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p++) e++; CHECK_EQ(t.count_matches(s.begin(), s.end(), ord), e); CHECK_EQ(t.count_matches(s.begin(), s.end(), ord), e); c.nontrivial(e > 5); }
PROP(very_long_words, 64, 1600) { // one word of hundreds of thousands of letters: nothing may recurse per letter
    int n = (int)c.range(1000, c.coin() ? 400000 : 20000); std::string al = c.coin() ? "a" : "ab", s = c.coin() ? std::string(n, 'a') : std::string(); while ((int)s.size() < n) s += al[c.below(al.size())]; c.show("n", n); std::string tail = c.str(1, 3, "abc"); s += tail; SHOW(tail); std::string cut = s.substr(0, c.range(1, n)); c.nontrivial(n > 20000); auto ord = [](char x) { return (char)(x - 'a'); };
    { typedef prefix_tree<3> T; std::unique_ptr<T> t(new T()); CHECK_EQ((int)t->add(s, T::ordinal_lower_alpha), 1); CHECK_EQ((int)t->num_letters(), (int)s.size()); CHECK_EQ((int)t->add(cut, T::ordinal_lower_alpha), cut == s ? 1 : 2); CHECK_EQ((int)t->append(1, std::string("cb"), T::ordinal_lower_alpha), cut == s ? 2 : 3); std::unique_ptr<T> u(new T(*t)); CHECK_EQ((int)u->num_letters(), (int)s.size() + 2); std::vector<size_t> len; u->for_each([&](const std::string& w, int id) { len.push_back(w.size()); CHECK(w == (id == 1 ? s : w.size() > s.size() ? s + "cb" : cut)); }, T::letter_lower_alpha); std::vector<size_t> e{ cut.size(), s.size(), s.size() + 2 }; if (cut == s) e.erase(e.begin()); CHECK_EQ(len, e); T v; v = *u; u.reset(); CHECK(v.get(1, T::letter_lower_alpha) == s); CHECK((int)t->erase(1) == 1); CHECK_EQ((int)t->num_letters(), (int)s.size() + 2); t->clear(); CHECK_EQ((int)t->num_letters(), 0); CHECK_EQ((int)v.find(s, T::ordinal_lower_alpha), 1); }
    { typedef aho_corasick_trie<3> T; T t; t.insert(s.begin(), s.end(), ord); t.insert(tail.begin(), tail.end(), ord); t.build(); int64_t e = 0; for (size_t p = 0; (p = s.find(tail, p)) != std::string::npos; p++) e++; std::string text = s.substr(1) + "c" + s; int64_t f = 1; for (size_t p = 0; (p = text.find(tail, p)) != std::string::npos; p++) f++; CHECK_EQ(t.count_matches(s.begin(), s.end(), ord), e + 1); CHECK_EQ(t.count_matches(text.begin(), text.end(), ord), f); } }
