// typed access to values of dynamic type
#include <string>
#include "text/json.h"
#include "lang/any.h"
#include "data/optional.h"
#include "database/type.h"

namespace driver_typed {
using namespace pfi::text::json;
using pfi::lang::any;
using pfi::lang::shared_ptr;
using pfi::data::optional;
using namespace pfi::database;
using pfi::system::time::clock_time;
using pfi::system::time::calendar_time;

bool jc_bool(const json& j) { return json_cast<bool>(j); }
int jc_int(const json& j) { return json_cast<int>(j); }
long jc_long(const json& j) { return json_cast<long>(j); }
long long jc_llong(const json& j) { return json_cast<long long>(j); }
float jc_float(const json& j) { return json_cast<float>(j); }
double jc_double(const json& j) { return json_cast<double>(j); }
std::string jc_string(const json& j) { return json_cast<std::string>(j); }

bool jd_bool(const json& j, const bool& d) { return json_cast_with_default<bool>(j, d); }
int jd_int(const json& j, const int& d) { return json_cast_with_default<int>(j, d); }
long jd_long(const json& j, const long& d) { return json_cast_with_default<long>(j, d); }
long long jd_llong(const json& j, const long long& d) { return json_cast_with_default<long long>(j, d); }
float jd_float(const json& j, const float& d) { return json_cast_with_default<float>(j, d); }
double jd_double(const json& j, const double& d) { return json_cast_with_default<double>(j, d); }
std::string jd_string(const json& j, const std::string& d) { return json_cast_with_default<std::string>(j, d); }

bool is_null(const json& j) { return is<json_null>(j); }
bool is_integer(const json& j) { return is<json_integer>(j); }
bool is_float(const json& j) { return is<json_float>(j); }
bool is_number(const json& j) { return is<json_number>(j); }
bool is_bool(const json& j) { return is<json_bool>(j); }
bool is_string(const json& j) { return is<json_string>(j); }
bool is_array(const json& j) { return is<json_array>(j); }
bool is_object(const json& j) { return is<json_object>(j); }
int jo_type(const json& j) { return j.type(); }
json m_null() { return json(new json_null()); }
json m_integer(int64_t n) { return json(new json_integer(n)); }
json m_float(double d) { return json(new json_float(d)); }
json m_bool(bool b) { return json(new json_bool(b)); }
json m_string(const std::string& s) { return json(new json_string(s)); }
json m_array() { return json(new json_array()); }
json m_object() { return json(new json_object()); }
int k_null() { return json::Null; }
int k_integer() { return json::Integer; }
int k_float() { return json::Float; }
int k_bool() { return json::Bool; }
int k_string() { return json::String; }
int k_array() { return json::Array; }
int k_object() { return json::Object; }

json& jo_name(json& j, const std::string& n) { return j[n]; }
const json& jo_cname(const json& j, const std::string& n) { return j[n]; }
json& jo_at(json& j, size_t i) { return j[i]; }
const json& jo_cat(const json& j, size_t i) { return j[i]; }
size_t jo_count(const json& j, const std::string& n) { return j.count(n); }
void jo_put(json& j, const std::string& n, const json& v) { j.add(n, v); }
void jo_push(json& j, const json& v) { j.add(v); }
size_t jo_size(const json& j) { return j.size(); }
json jo_merge(json& j, json& v) { return j.merge(v); }
json::iterator jo_begin(json& j) { return j.begin(); }
json::iterator jo_end(json& j) { return j.end(); }
json::const_iterator jo_cbegin(const json& j) { return j.begin(); }
json::const_iterator jo_cend(const json& j) { return j.end(); }
bool je_equals(const json& a, const json& b, bool i) { return equals(a, b, i); }

json tj_bool(bool v) { return to_json(v); }
json tj_int(int v) { return to_json(v); }
json tj_uint(unsigned v) { return to_json(v); }
json tj_long(long v) { return to_json(v); }
json tj_llong(long long v) { return to_json(v); }
json tj_float(float v) { return to_json(v); }
json tj_double(double v) { return to_json(v); }
json tj_string(const std::string& v) { return to_json(v); }

shared_ptr<sql_value> ts_bool(bool v) { return to_sql(v); }
shared_ptr<sql_value> ts_int32(int32_t v) { return to_sql(v); }
shared_ptr<sql_value> ts_int64(int64_t v) { return to_sql(v); }
shared_ptr<sql_value> ts_float(double v) { return to_sql(v); }
shared_ptr<sql_value> ts_string(const std::string& v) { return to_sql(v); }
shared_ptr<sql_value> ts_timestamp(const clock_time& v) { return to_sql(v); }

bool fs_bool(const shared_ptr<sql_value>& v) { return from_sql<bool>(v); }
int32_t fs_int32(const shared_ptr<sql_value>& v) { return from_sql<int32_t>(v); }
int64_t fs_int64(const shared_ptr<sql_value>& v) { return from_sql<int64_t>(v); }
double fs_double(const shared_ptr<sql_value>& v) { return from_sql<double>(v); }
std::string fs_string(const shared_ptr<sql_value>& v) { return from_sql<std::string>(v); }
clock_time fs_clock(const shared_ptr<sql_value>& v) { return from_sql<clock_time>(v); }
calendar_time fs_calendar(const shared_ptr<sql_value>& v) { return from_sql<calendar_time>(v); }

const int& ac_int(const any& a) { return any_cast<int>(a); }
const std::string& ac_string(const any& a) { return any_cast<std::string>(a); }
const std::type_info& ac_type(const any& a) { return a.type(); }
void any_make() { any a(1); any b(std::string("x")); a = b; }

bool op_eq(const optional<long>& r, const optional<long>& s) { return r == s; }
bool op_ne(const optional<long>& r, const optional<long>& s) { return r != s; }
bool op_lt(const optional<long>& r, const optional<long>& s) { return r < s; }
bool op_gt(const optional<long>& r, const optional<long>& s) { return r > s; }
bool op_le(const optional<long>& r, const optional<long>& s) { return r <= s; }
bool op_ge(const optional<long>& r, const optional<long>& s) { return r >= s; }
}
