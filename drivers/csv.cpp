// reader of comma separated values
#include <iostream>
#include <string>
#include "text/csv.h"

namespace driver_csv {
using namespace pfi::text;
typedef csv_parser::parser_impl<const char*> impl;

bool next(impl& r) { return r.impl::next(); }
void extend(impl& r) { r.impl::extend(); }
void copy(const impl& r, csv_parser::row_type& row, std::vector<char>& buf) { r.impl::copy(row, buf); }
void make(void* where, const char* p, const char* q) { new (where) impl(p, q); }
}
