// Instantiates positional binding and row fetching of every arity through the
// public interface, with value types that cannot be confused. Never run.
#include "database/database.h"
#include "database/connection.h"
#include "database/statement.h"
#include "database/type.h"
#include "database/util.h"
namespace drv {
template <int N> struct V { int x; V(); V(const V&); V& operator=(const V&); ~V(); };
typedef pfi::lang::shared_ptr<pfi::database::sql_value> sv;
sv to_sql(const V<1>&);
sv to_sql(const V<2>&);
sv to_sql(const V<3>&);
sv to_sql(const V<4>&);
sv to_sql(const V<5>&);
sv to_sql(const V<6>&);
sv to_sql(const V<7>&);
sv to_sql(const V<8>&);
sv to_sql(const V<9>&);
sv to_sql(const V<10>&);
}
namespace pfi { namespace database {
template <> drv::V<1> from_sql<drv::V<1> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<2> from_sql<drv::V<2> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<3> from_sql<drv::V<3> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<4> from_sql<drv::V<4> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<5> from_sql<drv::V<5> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<6> from_sql<drv::V<6> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<7> from_sql<drv::V<7> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<8> from_sql<drv::V<8> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<9> from_sql<drv::V<9> >(const pfi::lang::shared_ptr<sql_value>&);
template <> drv::V<10> from_sql<drv::V<10> >(const pfi::lang::shared_ptr<sql_value>&);
}}
namespace drv {
int exec0(pfi::database::statement& s) { return s.execute(); }
int run0(pfi::database::connection& s, const std::string& q) { return s.run(q); }
int exec1(pfi::database::statement& s, V<1> a1) { return s.execute(a1); }
int run1(pfi::database::connection& s, const std::string& q, V<1> a1) { return s.run(q, a1); }
bool row1(pfi::database::statement& s, V<1>& a1) { return s.fetch_row(a1); }
int exec2(pfi::database::statement& s, V<1> a1, V<2> a2) { return s.execute(a1, a2); }
int run2(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2) { return s.run(q, a1, a2); }
bool row2(pfi::database::statement& s, V<1>& a1, V<2>& a2) { return s.fetch_row(a1, a2); }
int exec3(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3) { return s.execute(a1, a2, a3); }
int run3(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3) { return s.run(q, a1, a2, a3); }
bool row3(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3) { return s.fetch_row(a1, a2, a3); }
int exec4(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3, V<4> a4) { return s.execute(a1, a2, a3, a4); }
int run4(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3, V<4> a4) { return s.run(q, a1, a2, a3, a4); }
bool row4(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3, V<4>& a4) { return s.fetch_row(a1, a2, a3, a4); }
int exec5(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5) { return s.execute(a1, a2, a3, a4, a5); }
int run5(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5) { return s.run(q, a1, a2, a3, a4, a5); }
bool row5(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3, V<4>& a4, V<5>& a5) { return s.fetch_row(a1, a2, a3, a4, a5); }
int exec6(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6) { return s.execute(a1, a2, a3, a4, a5, a6); }
int run6(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6) { return s.run(q, a1, a2, a3, a4, a5, a6); }
bool row6(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3, V<4>& a4, V<5>& a5, V<6>& a6) { return s.fetch_row(a1, a2, a3, a4, a5, a6); }
int exec7(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7) { return s.execute(a1, a2, a3, a4, a5, a6, a7); }
int run7(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7) { return s.run(q, a1, a2, a3, a4, a5, a6, a7); }
bool row7(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3, V<4>& a4, V<5>& a5, V<6>& a6, V<7>& a7) { return s.fetch_row(a1, a2, a3, a4, a5, a6, a7); }
int exec8(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7, V<8> a8) { return s.execute(a1, a2, a3, a4, a5, a6, a7, a8); }
int run8(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7, V<8> a8) { return s.run(q, a1, a2, a3, a4, a5, a6, a7, a8); }
bool row8(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3, V<4>& a4, V<5>& a5, V<6>& a6, V<7>& a7, V<8>& a8) { return s.fetch_row(a1, a2, a3, a4, a5, a6, a7, a8); }
int exec9(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7, V<8> a8, V<9> a9) { return s.execute(a1, a2, a3, a4, a5, a6, a7, a8, a9); }
int run9(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7, V<8> a8, V<9> a9) { return s.run(q, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
bool row9(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3, V<4>& a4, V<5>& a5, V<6>& a6, V<7>& a7, V<8>& a8, V<9>& a9) { return s.fetch_row(a1, a2, a3, a4, a5, a6, a7, a8, a9); }
int exec10(pfi::database::statement& s, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7, V<8> a8, V<9> a9, V<10> a10) { return s.execute(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
int run10(pfi::database::connection& s, const std::string& q, V<1> a1, V<2> a2, V<3> a3, V<4> a4, V<5> a5, V<6> a6, V<7> a7, V<8> a8, V<9> a9, V<10> a10) { return s.run(q, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
bool row10(pfi::database::statement& s, V<1>& a1, V<2>& a2, V<3>& a3, V<4>& a4, V<5>& a5, V<6>& a6, V<7>& a7, V<8>& a8, V<9>& a9, V<10>& a10) { return s.fetch_row(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
void tr1(pfi::database::connection* c, void (*body)()) { using namespace pfi::database; transaction(c) { body(); } }
void tr2(pfi::lang::shared_ptr<pfi::database::connection>& c, void (*body)()) { using namespace pfi::database; transaction(c) { body(); } }
bool f1(const sv& v) { return pfi::database::from_sql<bool>(v); }
int32_t f2(const sv& v) { return pfi::database::from_sql<int32_t>(v); }
int64_t f3(const sv& v) { return pfi::database::from_sql<int64_t>(v); }
double f4(const sv& v) { return pfi::database::from_sql<double>(v); }
std::string f5(const sv& v) { return pfi::database::from_sql<std::string>(v); }
pfi::system::time::clock_time f6(const sv& v) { return pfi::database::from_sql<pfi::system::time::clock_time>(v); }
pfi::system::time::calendar_time f7(const sv& v) { return pfi::database::from_sql<pfi::system::time::calendar_time>(v); }
}
