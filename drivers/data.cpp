// Uses of the containers, one function per operation. Nothing here is ever run.
#include <string>
#include <vector>
#include <stdexcept>
#include "data/lru.h"
#include "data/intern.h"

namespace driver_data {
typedef pfi::data::lru<int, long> cache;
bool c_has(const cache& c, int k) { return c.has(k); }
long c_get(cache& c, int k) { return c.get(k); }
void c_set(cache& c, int k, long v) { c.set(k, v); }
void c_touch(cache& c, int k) { c.touch(k); }
void c_remove(cache& c, int k) { c.remove(k); }
void c_clear(cache& c) { c.clear(); }
long& c_index(cache& c, int k) { return c[k]; }
void c_make(cache*& p, int n) { p = new cache(n); }

typedef pfi::data::intern<long> dict;
bool i_empty(const dict& d) { return d.empty(); }
void i_clear(dict& d) { d.clear(); }
unsigned long i_size(const dict& d) { return d.size(); }
int i_nogen(const dict& d, long k) { return d.key2id_nogen(k); }
int i_id(dict& d, long k) { return d.key2id(k); }
int i_idgen(dict& d, long k, bool g) { return d.key2id(k, g); }
const long& i_key(const dict& d, int i) { return d.id2key(i); }
bool i_haskey(const dict& d, long k) { return d.exist_key(k); }
bool i_hasid(const dict& d, int i) { return d.exist_id(i); }
void i_swap(dict& a, dict& b) { a.swap(b); }
void i_swapf(dict& a, dict& b) { swap(a, b); }
}
