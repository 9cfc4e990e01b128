// Serialization templates instantiated with opaque element types: every element
// transfer stays visible as a call. Nothing here is ever run.
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <map>
#include <set>
#include "data/serialization.h"
#include "data/serialization/unordered_map.h"
#include "data/serialization/unordered_set.h"
#include "data/serialization/iostream.h"
#include "data/intern.h"

namespace driver_ser {

struct A {
  A(); A(const A&); ~A(); A& operator=(const A&);
  template <class Ar> void serialize(Ar&);
};
struct B {
  B(); B(const B&); ~B(); B& operator=(const B&);
  template <class Ar> void serialize(Ar&);
};
bool operator<(const A&, const A&);
bool operator==(const A&, const A&);
struct H { size_t operator()(const A&) const; };

using namespace pfi::data::serialization;

template <class Ar, class T> void io(Ar& ar, T& v) { ar & v; }

#define BOTH(...) template void io<binary_iarchive, __VA_ARGS__ >(binary_iarchive&, __VA_ARGS__&); \
  template void io<binary_oarchive, __VA_ARGS__ >(binary_oarchive&, __VA_ARGS__&)

typedef A array4[4];
typedef std::vector<A> vec; typedef std::deque<A> deq; typedef std::list<A> lst; typedef std::set<A> sett;
typedef std::map<A, B> mapp; typedef pfi::data::unordered_map<A, B, H> umap; typedef pfi::data::unordered_set<A, H> uset;
typedef std::pair<A, B> prr; typedef pfi::data::intern<A, H> intr;
BOTH(vec); BOTH(deq); BOTH(lst); BOTH(sett); BOTH(mapp); BOTH(umap); BOTH(uset); BOTH(prr); BOTH(std::string); BOTH(intr); BOTH(std::iostream);

typedef std::vector<int> vec_i; typedef std::deque<int> deq_i; typedef std::list<int> lst_i; typedef std::set<int> set_i;
typedef std::map<int, int> map_i; typedef pfi::data::unordered_map<int, int> umap_i; typedef pfi::data::unordered_set<int> uset_i; typedef std::pair<int, int> prr_i;
BOTH(vec_i); BOTH(deq_i); BOTH(lst_i); BOTH(set_i); BOTH(map_i); BOTH(umap_i); BOTH(uset_i); BOTH(prr_i);

void arr(binary_iarchive& i, binary_oarchive& o, array4& a) { serialize(i, a); serialize(o, a); }

#define SCAL(t) BOTH(t)
SCAL(bool); SCAL(char); SCAL(signed char); SCAL(unsigned char); SCAL(short); SCAL(unsigned short); SCAL(int); SCAL(unsigned int);
SCAL(long); SCAL(unsigned long); SCAL(long long); SCAL(unsigned long long); SCAL(float); SCAL(double);

}
