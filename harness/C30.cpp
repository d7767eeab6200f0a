// C30: binary_search_tree with every duplicate mode, as set and as map, against a sorted vector.
#include "bst_model.h"
#include "altruct/structure/container/bounded_contiguous_allocator.h"
using namespace bm;
template<class K, class T, int DUP, class A = std::allocator<bst_node<T>>> using BST = binary_search_tree<K, T, DUP, Cmp<K>, A>;
typedef std::pair<const int, Payload> Pr;
template<int DUP> void set_history(pbt::Ctx& c) { History<BST<Elem, Elem, DUP>, Elem, Elem, DUP, false> h{ c }; h.run(); }
template<int DUP> void map_history(pbt::Ctx& c) { History<BST<int, Pr, DUP>, int, Pr, DUP, false> h{ c }; h.run(); }
PROP(unique_keys, 79000, 1975000) { if (c.coin()) set_history<IGNORE>(c); else map_history<IGNORE>(c); }
PROP(counted_keys, 55000, 1375000) { if (c.coin()) set_history<COUNT>(c); else map_history<COUNT>(c); }
PROP(stored_duplicates, 62000, 1550000) { if (c.coin()) set_history<STORE>(c); else map_history<STORE>(c); }
