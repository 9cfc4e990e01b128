// message digest
#include <iostream>
#include <sstream>
#include <string>
#include <new>
#include "data/digest/md5.h"

namespace driver_digest {
using namespace pfi::data::digest;
typedef itr_buf<const char*> cbuf;

void make(void* where, const char* p, const char* q) { new (where) cbuf(p, q); }
void fill(cbuf& b, uint32_t* x) { b.cbuf::get(x); }
bool empty(const cbuf& b) { return b.cbuf::empty(); }
void of_range(md5sum* m, const char* p, const char* q) { new (m) md5sum(p, q); }
void of_string(md5sum* m, const std::string& s) { new (m) md5sum(s); }
void of_stream(md5sum* m, std::istream& is) { new (m) md5sum(is); }
bool less(const md5sum& a, const md5sum& b) { return a < b; }
void print(std::ostream& os, const md5sum& m) { os << m; }
}
