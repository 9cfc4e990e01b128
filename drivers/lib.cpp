// Instantiates the header-only parts of the library so that the analysis sees
// their code. Nothing here is ever run.
#include <iostream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include "lang/noncopyable.h"
#include "lang/singleton.h"
#include "lang/any.h"
#include "lang/cast.h"
#include "lang/demangle.h"
#include "lang/scoped_ptr.h"
#include "lang/shared_ptr.h"
#include "lang/weak_ptr.h"
#include "lang/enable_shared_from_this.h"
#include "data/lru.h"
#include "data/intern.h"
#include "data/optional.h"
#include "data/fenwick_tree.h"
#include "data/serialization.h"
#include "data/serialization/unordered_map.h"
#include "data/serialization/unordered_set.h"
#include "data/serialization/iostream.h"
#include "data/string/kmp.h"
#include "data/string/algorithm.h"
#include "data/string/utility.h"
#include "data/string/ustring.h"
#include "math/random.h"
#include "math/ratio.h"
#include "math/fft.h"
#include "text/csv.h"
#include "text/json.h"
#include "network/iostream.h"
#include "network/http/stream.h"
#include "network/cgi.h"
#include "system/endian_util.h"
#include "system/time_util.h"

namespace driver_lib {

struct W { W(); ~W(); W(const W&); W& operator=(const W&); int v; };

W& sing() { return pfi::lang::singleton<W>::instance(); }

typedef std::string S;

void lrus(pfi::data::lru<S, W>& c, S k, W w)
{
  pfi::data::lru<S, W> d(3);
  c.has(k); c.get(k); c.set(k, w); c.touch(k); c.remove(k); c.clear(); c[k];
}

void interns(pfi::data::intern<S>& a, pfi::data::intern<S>& b, S k, pfi::data::serialization::binary_iarchive& i, pfi::data::serialization::binary_oarchive& o)
{
  a.empty(); a.clear(); a.size(); a.key2id_nogen(k); a.key2id(k); a.key2id(k, false); a.id2key(1); a.exist_key(k); a.exist_id(1); a.swap(b);
  swap(a, b);
  i >> a; o << a;
}

void anys(pfi::lang::any& a, W w, pfi::data::optional<W>& o)
{
  pfi::lang::any b, c(w), d(a);
  b = w; b = c; b.type(); a.cast<W>(); pfi::lang::any_cast<W>(b); a.swap(b);
  pfi::data::optional<W> p, q(w), r(o);
  p = w; p = o; *p = w; p->v = 0; p.swap(q);
  if (p) p.get();
}

void casts(S s) { pfi::lang::lexical_cast<int>(s); pfi::lang::lexical_cast<S>(3); pfi::lang::lexical_cast<double>(3); pfi::lang::lexical_cast<S>(s); }

void strings(S a, S b, std::vector<S> v, pfi::data::string::ustring u)
{
  using namespace pfi::data::string;
  v = split(a, ' ');
  v = split(a, b);
  a = strip(a); a = lstrip(a); a = rstrip(a);
  a = join(v, b);
  starts_with(a, b); ends_with(a, b);
  a = replace(a, a, b);
  kmp<S> k(a);
  k.find(b, 1);
  edit_distance(a, b); longest_common_subsequence(a, b);
}

void tree(pfi::data::fenwick_tree<long>& t) { t.query(1); t.query(1, 2); t.increase(1, 2); }

void rnd(pfi::math::random::mtrand& r, std::vector<int>& v)
{
  pfi::math::random::mtrand q;
  r.next_int(); r.next_int(3); r.next_int(3, 4); r.next_double(); r.next_double(2.0); r.next_double(1.0, 2.0);
  r.next_gaussian(); r.next_gaussian(0, 1); r(); r(1); r(1, 2);
  pfi::math::random::sample_with_replacement(r, 3, 4, v);
  pfi::math::random::sample_without_replacement(r, 3, 4, v);
}

void ws(pfi::network::socketstream& s, S h) { pfi::network::socketstream t(h, 80); s.connect(h, 1); s.is_connected(); s.socket(); }
void hs(S h) { pfi::network::http::httpstream t(h); }

void ios(pfi::data::serialization::binary_iarchive& i, pfi::data::serialization::binary_oarchive& o, std::iostream& s)
{
  serialize(i, s); serialize(o, s);
}

void ratios(pfi::math::ratio::ratio<long>& a, const pfi::math::ratio::ratio<long>& b)
{
  a += b; a -= b; a *= b; a /= b; a + b; a - b; a * b; a / b; a == b; std::cout << a;
}

void csv(S a, std::vector<std::vector<S> >& o, std::istream& is)
{
  pfi::text::csv_parser p(a), q(is), r(a.c_str(), a.c_str());
  for (pfi::text::csv_iterator i(p), e; i != e; i++) o.push_back(std::vector<S>((*i).begin(), i->end()));
}

}

namespace pfi { namespace data { namespace serialization { template class stream<>; } } }
