// C40: bounded_contiguous_allocator: a pool of capacity elements; copies are pools of their own; usable by the containers.
#include "pbt.h"
#include <limits>
#include <set>
#include <new>
#include <stdlib.h>
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/container/link_cut_tree.h"
using namespace altruct::container;
struct S { uint64_t a[3]; };
PROP(pool_history, 49000, 1225000) {
    typedef bounded_contiguous_allocator<S> A; size_t cap = c.size_mostly(1, 12, 300, 50); SHOW(cap); A a(cap); std::vector<S*> out; std::set<S*> seen; uint64_t tag = 0; bool full = false, reused = false; size_t steps = c.range(0, cap > 12 ? 4 * cap : 60); CHECK_EQ(a.capacity(), cap);
    for (size_t s = 0; s < steps; s++) { int op = (int)c.weighted({ 10, 7, 1, 1, 1 }); c.show("op", op);
        if (op == 0) { bool thrown = false; S* p = nullptr; try { p = a.allocate(1); } catch (std::bad_alloc&) { thrown = true; } CHECK_MSG(thrown == (out.size() == cap), (thrown ? "refused" : "granted") << " with " << out.size() << " of " << cap << " elements in use"); full |= thrown; if (!thrown) { CHECK(p); for (S* q : out) CHECK_MSG(p != q, "the element is in use"); reused |= seen.count(p) > 0; seen.insert(p); a.construct(p, S{ { ++tag, tag ^ 7, (uint64_t)(uintptr_t)p } }); out.push_back(p); } }
        else if (op == 1 && out.size()) { size_t i = c.below(out.size()); a.destroy(out[i]); a.deallocate(out[i], 1); out.erase(out.begin() + i); }
        else if (op == 2) { bool thrown = false; try { a.allocate(c.coin() ? 0 : 2); } catch (std::bad_alloc&) { thrown = true; } CHECK_MSG(thrown, "only one element can be allocated at a time"); }
        else if (op == 3) { A b(a); CHECK_EQ(b.capacity(), cap); std::vector<S*> bo; for (size_t i = 0; i < cap; i++) { S* p = b.allocate(1); for (S* q : out) CHECK_MSG(p != q, "a copy hands out an element of the original"); p->a[0] = 0; bo.push_back(p); } bool thrown = false; try { b.allocate(1); } catch (std::bad_alloc&) { thrown = true; } CHECK(thrown); for (S* p : bo) b.deallocate(p, 1); }
        else if (op == 4) { bounded_contiguous_allocator<int> b(cap + 3); A x(b); CHECK_EQ(x.capacity(), cap + 3); A y(1); y = b; CHECK_EQ(y.capacity(), cap + 3); y = a; CHECK_EQ(y.capacity(), cap); S* p = y.allocate(1); for (S* q : out) CHECK(p != q); CHECK(y == y); CHECK(!(y == a)); CHECK(y != a); }
        for (S* p : out) CHECK_MSG(p->a[2] == (uint64_t)(uintptr_t)p && (p->a[0] ^ 7) == p->a[1], "an element was overwritten"); }
    if (seen.size()) CHECK_MSG((size_t)(*seen.rbegin() - *seen.begin()) < cap, "elements are not from one contiguous range"); c.nontrivial(full || reused); c.label("full", full); c.label("reused", reused);
}
PROP(containers_on_a_pool, 77000, 1925000) {
    size_t cap = c.range(2, 30); typedef bounded_contiguous_allocator<bst_node<int>> A; typedef treap<int, int, bst_duplicate_handling::IGNORE, std::less<int>, std::function<int()>, A> T; SHOW(cap); T t(std::less<int>(), rand, A(cap + 1)), u(std::less<int>(), rand, A(cap + 1)); std::set<int> m, w; bool copied = false, thrown = false; size_t steps = c.range(0, 60); // the nil node takes one element
    for (size_t s = 0; s < steps; s++) { int op = (int)c.weighted({ 12, 6, 2, 2, 1, 1 }), k = (int)c.range(0, 60); c.show("op", op); SHOW(k);
        if (op == 0) { bool th = false; try { t.insert(k); } catch (std::bad_alloc&) { th = true; } CHECK_EQ(th, !m.count(k) && m.size() == cap); if (!th) m.insert(k); thrown |= th; } else if (op == 1) { t.erase(k); m.erase(k); } else if (op == 2) { u = t; w = m; copied |= !m.empty(); } else if (op == 3) { t.swap(u); m.swap(w); copied = true; } else if (op == 4) { T x(t); CHECK(x == t); x.insert(m.empty() ? 1 : *m.begin()); x.clear(); } else { t.clear(); m.clear(); }
        CHECK_EQ(std::vector<int>(t.begin(), t.end()), std::vector<int>(m.begin(), m.end())); CHECK_EQ(std::vector<int>(u.begin(), u.end()), std::vector<int>(w.begin(), w.end())); }
    c.nontrivial(copied && steps > 5); c.label("out of room", thrown);
}
// every way of making one pool from another leaves a pool whose whole capacity is there, whatever the target and the source had handed out
struct Elem16 { char b[16]; };
template <class A> static void drains(pbt::Ctx& c, A& y, size_t cap, const char* how) {
    std::set<typename A::value_type*> got; CHECK_EQ(y.capacity(), cap); for (size_t i = 0; i < cap; i++) { typename A::value_type* p = nullptr; try { p = y.allocate(1); } catch (std::bad_alloc&) {} CHECK_MSG(p, how << ": refused after " << i << " of " << cap); CHECK_MSG(got.insert(p).second, how << ": element handed out twice"); *p = typename A::value_type(); }
    bool thrown = false; try { y.allocate(1); } catch (std::bad_alloc&) { thrown = true; } CHECK_MSG(thrown, how << ": grants more than its capacity"); for (auto p : got) y.deallocate(p, 1); CHECK_MSG((size_t)(*got.rbegin() - *got.begin()) == cap - 1, how << ": not contiguous"); (void)c;
}
PROP(conversions_and_assignments, 220000, 5500000) {
    typedef bounded_contiguous_allocator<S> A; typedef bounded_contiguous_allocator<Elem16> B; size_t n = c.size_mostly(1, 12, 300, 50), m = c.size_mostly(1, 12, 300, 50); SHOW(n); SHOW(m); size_t k = 0; int kind = (int)c.below(8); SHOW(kind); A a(n); std::vector<S*> out; k = c.range(0, n); for (size_t i = 0; i < k; i++) out.push_back(a.allocate(1)); SHOW(k);
    size_t used = c.range(0, m); SHOW(used);
    if (kind == 0) { B b(m); for (size_t i = 0; i < used; i++) b.allocate(1); a = b; drains(c, a, m, "assigned from a pool of another type"); }
    else if (kind == 1) { B b(m); for (size_t i = 0; i < used; i++) b.allocate(1); A x(b); drains(c, x, m, "made from a pool of another type"); }
    else if (kind == 2) { A b(m); for (size_t i = 0; i < used; i++) b.allocate(1); a = b; drains(c, a, m, "copy assigned"); for (size_t i = used; i < m; i++) b.allocate(1); bool thrown = false; try { b.allocate(1); } catch (std::bad_alloc&) { thrown = true; } CHECK_MSG(thrown, "the source of a copy changed"); }
    else if (kind == 3) { A x(a); drains(c, x, n, "copied"); for (size_t i = k; i < n; i++) { S* p = a.allocate(1); for (S* q : out) CHECK(p != q); } }
    else if (kind == 4) { A x(std::move(a)); for (S* p : out) *p = S(); for (size_t i = k; i < n; i++) { S* p = x.allocate(1); for (S* q : out) CHECK_MSG(p != q, "a moved pool hands out an element in use"); out.push_back(p); } bool thrown = false; try { x.allocate(1); } catch (std::bad_alloc&) { thrown = true; } CHECK(thrown); for (S* p : out) x.deallocate(p, 1); drains(c, x, n, "moved"); }
    else if (kind == 5) { A x(m); for (size_t i = 0; i < used; i++) x.allocate(1); x = std::move(a); for (size_t i = k; i < n; i++) { S* p = x.allocate(1); for (S* q : out) CHECK_MSG(p != q, "a moved pool hands out an element in use"); out.push_back(p); } for (S* p : out) x.deallocate(p, 1); drains(c, x, n, "move assigned"); }
    else if (kind == 6) { A& self = a; a = self; drains(c, a, n, "assigned to itself"); }
    else { a.clear(); A x(a); drains(c, x, n, "copied from a cleared pool"); }
    c.nontrivial(n > 1 && (k > 0 || used > 0)); c.label("target smaller", n < m); c.label("converted", kind < 2);
}
