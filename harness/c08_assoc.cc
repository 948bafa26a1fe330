// C08: set, multiset, map and multimap stay sorted and answer queries by their ordering.
#include "assoc.h"
using namespace vf;
typedef ustl::string S;
#define SETC(nm,T,Ord,q,t) \
    VF_CASE (c08_set_##nm, q, t) { SetTest<ustl::set<T,Ord<T>::Comp>,Ord<T>,false>::run(); if (want_sample()) sample ("history on set<%s,%s>", #T, #Ord); } \
    VF_CASE (c08_multiset_##nm, q, t) { SetTest<ustl::multiset<T,Ord<T>::Comp>,Ord<T>,true>::run(); if (want_sample()) sample ("history on multiset<%s,%s>", #T, #Ord); }
#define MAPC(nm,K,V,Ord,q,t) \
    VF_CASE (c08_map_##nm, q, t) { MapTest<ustl::map<K,V,Ord<K>::Comp>,Ord<K>,false>::run(); if (want_sample()) sample ("history on map<%s,%s,%s>", #K, #V, #Ord); } \
    VF_CASE (c08_multimap_##nm, q, t) { MapTest<ustl::multimap<K,V,Ord<K>::Comp>,Ord<K>,true>::run(); if (want_sample()) sample ("history on multimap<%s,%s,%s>", #K, #V, #Ord); }
SETC (int_less, int, OrdLess, 200, 4000)
SETC (int_greater, int, OrdGreater, 120, 3000)
SETC (int_class, int, OrdClass, 160, 4000)
SETC (u16_class, uint16_t, OrdClass, 120, 3000)
SETC (string_less, S, OrdStr, 80, 2000)
SETC (string_class, S, OrdClass, 80, 2000)
MAPC (int_int, int, int, OrdLess, 200, 4000)
MAPC (int_string, int, S, OrdGreater, 120, 3000)
MAPC (string_less, S, int, OrdStr, 80, 2000)
MAPC (string_int, S, int, OrdClass, 120, 3000)
MAPC (int_u64_class, int, uint64_t, OrdClass, 160, 4000)
// Thousands of elements
#define BIG(nm,T) VF_CASE (c08_big_##nm, 24, 200) { g_big = R.chance (1, 2) ? 300 + R.below (3000) : 3000 + R.below (9000); T::run(); }
typedef SetTest<ustl::set<int,OrdLess<int>::Comp>,OrdLess<int>,false> BS;
typedef SetTest<ustl::multiset<uint16_t,OrdClass<uint16_t>::Comp>,OrdClass<uint16_t>,true> BMS;
typedef MapTest<ustl::map<int,int,OrdGreater<int>::Comp>,OrdGreater<int>,false> BM;
typedef MapTest<ustl::multimap<int,uint64_t,OrdClass<int>::Comp>,OrdClass<int>,true> BMM;
typedef SetTest<ustl::set<int,OrdClass<int>::Comp>,OrdClass<int>,false> BSC;
typedef MapTest<ustl::map<int,uint64_t,OrdClass<int>::Comp>,OrdClass<int>,false> BMC;
BIG (set_class, BSC) BIG (map_class, BMC) BIG (set, BS) BIG (multiset, BMS) BIG (map, BM) BIG (multimap, BMM)
VF_CASE (c08_big_string, 16, 100) { g_big = 300 + R.below (R.chance (1, 3) ? 5000 : 1000); if (R.chance (1, 2)) SetTest<ustl::set<S,OrdStr<S>::Comp>,OrdStr<S>,false>::run(); else MapTest<ustl::map<S,int,OrdStr<S>::Comp>,OrdStr<S>,false>::run(); }
