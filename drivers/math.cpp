// Numeric value types, instantiated. Nothing here is ever run.
#include <iostream>
#include "math/vector.h"
#include "math/ratio.h"
#include "math/random.h"
#include "system/time_util.h"
#include "network/ipv4.h"
#include "data/fenwick_tree.h"

namespace driver_math {

#define VEC(NS, V, N, T) \
  typedef pfi::math::vector::NS::V<T> N##_t; \
  void N##_zero(N##_t& r) { r = N##_t(); } \
  void N##_from(N##_t& r, T* p) { r = N##_t(p); } \
  void N##_to(const N##_t& a, T* p) { a.writeToArray(p); } \
  void N##_add(N##_t& r, const N##_t& a, const N##_t& b) { r = a + b; } \
  void N##_sub(N##_t& r, const N##_t& a, const N##_t& b) { r = a - b; } \
  void N##_neg(N##_t& r, const N##_t& a) { r = -a; } \
  void N##_lmul(N##_t& r, const T& m, const N##_t& a) { r = m * a; } \
  void N##_rmul(N##_t& r, const N##_t& a, const T& m) { r = a * m; } \
  void N##_div(N##_t& r, const N##_t& a, const T& m) { r = a / m; } \
  T N##_dot(const N##_t& a, const N##_t& b) { return a * b; } \
  void N##_addeq(N##_t& a, const N##_t& b) { a += b; } \
  void N##_subeq(N##_t& a, const N##_t& b) { a -= b; } \
  void N##_muleq(N##_t& a, const T& b) { a *= b; } \
  void N##_diveq(N##_t& a, const T& b) { a /= b; } \
  void N##_addself(N##_t& a) { a += a; } \
  void N##_subself(N##_t& a) { a -= a; } \
  void N##_mulown(N##_t& a) { a *= *reinterpret_cast<T*>(&a); } \
  void N##_divown(N##_t& a) { a /= *reinterpret_cast<T*>(&a); } \
  bool N##_eq(const N##_t& a, const N##_t& b) { return a == b; } \
  bool N##_lt(const N##_t& a, const N##_t& b) { return a < b; } \
  T N##_norm(const N##_t& a) { return norm(a); } \
  T N##_abs(const N##_t& a) { return abs(a); } \
  void N##_unit(N##_t& r, const N##_t& a) { r = normalize(a); } \
  void N##_scaled(N##_t& r, const N##_t& a, T b) { r = normalize(a, b); } \
  void N##_munit(N##_t& r, N##_t& a) { r = a.normalize(); } \
  void N##_mscaled(N##_t& r, N##_t& a, T b) { r = a.normalize(b); } \
  T N##_proj(const N##_t& a, const N##_t& b) { return a / b; } \
  void N##_read(std::istream& is, N##_t& a) { is >> a; } \
  void N##_write(std::ostream& os, const N##_t& a) { os << a; }
#define IDX(N, K) double& N##_at##K(N##_t& a) { return a[K]; }

VEC(component_by_name, vector2, n2, double)
void n2_make(n2_t& r, double c0, double c1) { r = n2_t(c0, c1); }
IDX(n2, 0) IDX(n2, 1)
VEC(component_by_name, vector3, n3, double)
void n3_make(n3_t& r, double c0, double c1, double c2) { r = n3_t(c0, c1, c2); }
IDX(n3, 0) IDX(n3, 1) IDX(n3, 2)
VEC(component_by_name, vector4, n4, double)
void n4_make(n4_t& r, double c0, double c1, double c2, double c3) { r = n4_t(c0, c1, c2, c3); }
IDX(n4, 0) IDX(n4, 1) IDX(n4, 2) IDX(n4, 3)
VEC(component_by_array, vector2, a2, double)
void a2_make(a2_t& r, double c0, double c1) { r = a2_t(c0, c1); }
IDX(a2, 0) IDX(a2, 1)
VEC(component_by_array, vector3, a3, double)
void a3_make(a3_t& r, double c0, double c1, double c2) { r = a3_t(c0, c1, c2); }
IDX(a3, 0) IDX(a3, 1) IDX(a3, 2)
VEC(component_by_array, vector4, a4, double)
void a4_make(a4_t& r, double c0, double c1, double c2, double c3) { r = a4_t(c0, c1, c2, c3); }
IDX(a4, 0) IDX(a4, 1) IDX(a4, 2) IDX(a4, 3)
VEC(component_by_array, vector5, a5, double)
void a5_make(a5_t& r, double c0, double c1, double c2, double c3, double c4) { r = a5_t(c0, c1, c2, c3, c4); }
IDX(a5, 0) IDX(a5, 1) IDX(a5, 2) IDX(a5, 3) IDX(a5, 4)
VEC(component_by_array, vector6, a6, double)
void a6_make(a6_t& r, double c0, double c1, double c2, double c3, double c4, double c5) { r = a6_t(c0, c1, c2, c3, c4, c5); }
IDX(a6, 0) IDX(a6, 1) IDX(a6, 2) IDX(a6, 3) IDX(a6, 4) IDX(a6, 5)
VEC(component_by_array, vector7, a7, double)
void a7_make(a7_t& r, double c0, double c1, double c2, double c3, double c4, double c5, double c6) { r = a7_t(c0, c1, c2, c3, c4, c5, c6); }
IDX(a7, 0) IDX(a7, 1) IDX(a7, 2) IDX(a7, 3) IDX(a7, 4) IDX(a7, 5) IDX(a7, 6)
VEC(component_by_array, vector8, a8, double)
void a8_make(a8_t& r, double c0, double c1, double c2, double c3, double c4, double c5, double c6, double c7) { r = a8_t(c0, c1, c2, c3, c4, c5, c6, c7); }
IDX(a8, 0) IDX(a8, 1) IDX(a8, 2) IDX(a8, 3) IDX(a8, 4) IDX(a8, 5) IDX(a8, 6) IDX(a8, 7)
VEC(component_by_array, vector9, a9, double)
void a9_make(a9_t& r, double c0, double c1, double c2, double c3, double c4, double c5, double c6, double c7, double c8) { r = a9_t(c0, c1, c2, c3, c4, c5, c6, c7, c8); }
IDX(a9, 0) IDX(a9, 1) IDX(a9, 2) IDX(a9, 3) IDX(a9, 4) IDX(a9, 5) IDX(a9, 6) IDX(a9, 7) IDX(a9, 8)
VEC(component_by_array, vector10, a10, double)
void a10_make(a10_t& r, double c0, double c1, double c2, double c3, double c4, double c5, double c6, double c7, double c8, double c9) { r = a10_t(c0, c1, c2, c3, c4, c5, c6, c7, c8, c9); }
IDX(a10, 0) IDX(a10, 1) IDX(a10, 2) IDX(a10, 3) IDX(a10, 4) IDX(a10, 5) IDX(a10, 6) IDX(a10, 7) IDX(a10, 8) IDX(a10, 9)
double n2_cross(const n2_t& a, const n2_t& b) { return a % b; }
double a2_cross(const a2_t& a, const a2_t& b) { return a % b; }
void n3_cross(n3_t& r, const n3_t& a, const n3_t& b) { r = a % b; }
void a3_cross(a3_t& r, const a3_t& a, const a3_t& b) { r = a % b; }

#define RAT(N, T) \
  typedef pfi::math::ratio::ratio<T> N##_t; \
  void N##_zero(N##_t& r) { r = N##_t(); } \
  void N##_whole(N##_t& r, T n) { r = N##_t(n); } \
  void N##_make(N##_t& r, T n, T d) { r = N##_t(n, d); } \
  T N##_num(const N##_t& a) { return a.num(); } \
  T N##_den(const N##_t& a) { return a.den(); } \
  void N##_addeq(N##_t& a, const N##_t& b) { a += b; } \
  void N##_subeq(N##_t& a, const N##_t& b) { a -= b; } \
  void N##_muleq(N##_t& a, const N##_t& b) { a *= b; } \
  void N##_diveq(N##_t& a, const N##_t& b) { a /= b; } \
  void N##_addself(N##_t& a) { a += a; } \
  void N##_subself(N##_t& a) { a -= a; } \
  void N##_mulself(N##_t& a) { a *= a; } \
  void N##_divself(N##_t& a) { a /= a; } \
  bool N##_eq(const N##_t& a, const N##_t& b) { return a == b; }
RAT(qi, int)
RAT(ql, long)
#define RATV(N) \
  void N##_add(N##_t& r, const N##_t& a, const N##_t& b) { r = N##_t(a + b); } \
  void N##_sub(N##_t& r, const N##_t& a, const N##_t& b) { r = N##_t(a - b); } \
  void N##_mul(N##_t& r, const N##_t& a, const N##_t& b) { r = N##_t(a * b); } \
  void N##_div(N##_t& r, const N##_t& a, const N##_t& b) { r = N##_t(a / b); }
RATV(ql)

using pfi::system::time::clock_time;
void t_addeq(clock_time& a, const clock_time& b) { a += b; }
void t_subeq(clock_time& a, const clock_time& b) { a -= b; }
void t_addself(clock_time& a) { a += a; }
void t_subself(clock_time& a) { a -= a; }
void t_add(clock_time& r, const clock_time& a, const clock_time& b) { r = clock_time(a + b); }
void t_sub(clock_time& r, const clock_time& a, const clock_time& b) { r = clock_time(a - b); }
bool t_lt(const clock_time& a, const clock_time& b) { return a < b; }
double t_sec(const clock_time& a) { return a; }
void t_make(clock_time& r, unsigned long s, int u) { r = clock_time(s, u); }
using pfi::system::time::calendar_time;
#define FLD(C, M) void C##_at_##M(C& c) { c.M = 1; }
FLD(clock_time, sec) FLD(clock_time, usec)
FLD(calendar_time, yday) FLD(calendar_time, wday) FLD(calendar_time, year) FLD(calendar_time, mon) FLD(calendar_time, mday)
FLD(calendar_time, hour) FLD(calendar_time, min) FLD(calendar_time, sec) FLD(calendar_time, usec) FLD(calendar_time, isdst)
void t_now(clock_time& r) { r = pfi::system::time::get_clock_time(); }

using pfi::network::ipv4_address;
void ip_zero(ipv4_address& r) { r = ipv4_address(); }
void ip_make(ipv4_address& r, unsigned char a, unsigned char b, unsigned char c, unsigned char d) { r = ipv4_address(a, b, c, d); }
bool ip_eq(const ipv4_address& a, const ipv4_address& b) { return a == b; }
bool ip_ne(const ipv4_address& a, const ipv4_address& b) { return a != b; }
bool ip_lt(const ipv4_address& a, const ipv4_address& b) { return a < b; }
std::string ip_str(const ipv4_address& a) { return a.to_string(); }
void ip_parse(ipv4_address& r, const std::string& s) { r = ipv4_address(s); }

typedef pfi::math::random::mtrand mtrand;
unsigned r_int(mtrand& r) { return r.next_int(); }
unsigned r_int1(mtrand& r, unsigned a) { return r.next_int(a); }
unsigned r_int2(mtrand& r, unsigned a, unsigned b) { return r.next_int(a, b); }
unsigned r_op(mtrand& r) { return r(); }
unsigned r_op1(mtrand& r, unsigned a) { return r(a); }
unsigned r_op2(mtrand& r, unsigned a, unsigned b) { return r(a, b); }
double r_dbl(mtrand& r) { return r.next_double(); }
double r_dbl1(mtrand& r, double a) { return r.next_double(a); }
double r_dbl2(mtrand& r, double a, double b) { return r.next_double(a, b); }
double r_gauss(mtrand& r) { return r.next_gaussian(); }
double r_gauss2(mtrand& r, double m, double d) { return r.next_gaussian(m, d); }
bool r_with(mtrand& r, int n, int k, std::vector<int>& v) { return pfi::math::random::sample_with_replacement(r, n, k, v); }
bool r_without(mtrand& r, int n, int k, std::vector<int>& v) { return pfi::math::random::sample_without_replacement(r, n, k, v); }
void r_seed(mtrand*& p, unsigned s) { p = new mtrand(s); }

typedef pfi::data::fenwick_tree<long> fenwick;
long f_query(fenwick& f, int a) { return f.query(a); }
long f_range(fenwick& f, int a, int b) { return f.query(a, b); }
void f_add(fenwick& f, int k, long n) { f.increase(k, n); }
}
