// Character-level templates, instantiated. Nothing here is ever run.
#include <string>
#include <iterator>
#include "data/string/ustring.h"
#include "system/endian_util.h"
#include "text/json.h"

namespace driver_text {
using namespace pfi::data::string;

uchar from_ptr(const char*& p, const char* e, fallback_base& fb) { return chars_to_uchar(p, e, fb); }
uchar from_ptr_repl(const char*& p, const char* e) { return chars_to_uchar(p, e); }
void to_ptr(uchar c, char*& p) { uchar_to_chars(c, p); }

#define END(T, N) \
  T to_little_##N(T v) { return pfi::system::endian::to_little(v); } \
  T from_little_##N(T v) { return pfi::system::endian::from_little(v); } \
  T to_big_##N(T v) { return pfi::system::endian::to_big(v); } \
  T from_big_##N(T v) { return pfi::system::endian::from_big(v); } \
  T reverse_##N(T v) { return pfi::system::endian::reverse(v); }
END(char, char) END(signed char, schar) END(unsigned char, uchar) END(short, short) END(unsigned short, ushort) END(int, int)
END(unsigned int, uint) END(long, long) END(unsigned long, ulong) END(long long, llong) END(unsigned long long, ullong) END(float, float) END(double, double)
void rev1(char* p) { pfi::system::endian::reverse<1>(p); }
void rev2(char* p) { pfi::system::endian::reverse<2>(p); }
void rev4(char* p) { pfi::system::endian::reverse<4>(p); }
void rev8(char* p) { pfi::system::endian::reverse<8>(p); }
void rev16(char* p) { pfi::system::endian::reverse<16>(p); }
void rev3(char* p) { pfi::system::endian::reverse<3>(p); }

pfi::text::json::json parse(std::istream& is) { return pfi::text::json::json_parser(is).parse(); }
void print(std::ostream& os, const pfi::text::json::json& j) { os << j; j.pretty(os, true); j.print(os, false); }
}
