From e7fcc056ee6e02d9050ab33cc48e063c333585d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:58 +0000
Subject: [PATCH 01/39] fix: rw_mutex::read_lock(sec) reported failure of a
 try-lock as success and success as failure

---
 src/concurrent/rwmutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/rwmutex.cpp b/src/concurrent/rwmutex.cpp
index a5e610e..3815b46 100644
--- a/src/concurrent/rwmutex.cpp
+++ b/src/concurrent/rwmutex.cpp
@@ -96,7 +96,7 @@ bool rw_mutex::impl::read_lock(double sec)
   if (!valid) return false;
 
   if (sec<1e-9)
-    return pthread_rwlock_tryrdlock(&lk);
+    return pthread_rwlock_tryrdlock(&lk)==0;
 
   timespec end=to_timespec(get_clock_time()+sec);
   return pthread_rwlock_timedrdlock(&lk, &end)==0;
-- 
2.43.0


From 2132bbe776121b505b6d16e7dccca25cb32c4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:58 +0000
Subject: [PATCH 02/39] fix: qsem::wait(q) takes q units, not one

---
 src/concurrent/qsem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/qsem.h b/src/concurrent/qsem.h
index 0191c90..8a4f2b8 100644
--- a/src/concurrent/qsem.h
+++ b/src/concurrent/qsem.h
@@ -56,7 +56,7 @@ public:
       if (lock) {
         while (quantity < q)
           cond.wait(m);
-        quantity--;
+        quantity -= q;
         return true;
       }
     }
-- 
2.43.0


From 2ebf9e1fbbe7fd702d0587e399e25470c20b9659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:58 +0000
Subject: [PATCH 03/39] fix: wake every thread blocked in
 rpc_server::wait_until_stopped, not just one

---
 src/network/rpc/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 69c8a0f..d23306c 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -254,7 +254,7 @@ void rpc_server::notify_if_this_is_the_last_running_threads()
     }
     state = server_state::STOPPED;
   }
-  stop_condition.notify_one();
+  stop_condition.notify_all();
 }
 
 rpc_client::rpc_client(const string &host, uint16_t port, int version)
-- 
2.43.0


From 8854cf1f6c83328a13503dc4e3d1ddc3f507559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 04/39] fix: a thread whose start throws is not left marked as
 running

---
 src/concurrent/thread.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/concurrent/thread.cpp b/src/concurrent/thread.cpp
index 48e12e9..f4fbedc 100644
--- a/src/concurrent/thread.cpp
+++ b/src/concurrent/thread.cpp
@@ -133,16 +133,15 @@ bool thread::impl::start()
   if (!f) return false;
   if (running) return false;
 
-  running = true;
   pfi::lang::function<void ()>* pf = new pfi::lang::function<void()>(f);
   int res = pthread_create(&tid, NULL, start_routine, pf);
   if (res != 0){
     delete pf;
     tid = 0;
-    running = false;
     return false;
   }
 
+  running = true;
   return true;
 }
 
-- 
2.43.0


From 25af879fe50b6313bc285528ead5318daad93b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:56 +0000
Subject: [PATCH 05/39] fix: server_socket::create on a listening socket closes
 it instead of leaking (or closing twice) its descriptor

---
 src/network/socket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 5c2a51f..772b8b7 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -443,6 +443,9 @@ bool server_socket::create(uint16_t port_num, int backlog)
 {
   int res;
 
+  if (connected && !close())
+    return false;
+
   NO_INTR(sock, ::socket(PF_INET, SOCK_STREAM, 0));
   if (FAILED(sock)){
     sock=-1;
-- 
2.43.0


From 726beb3ede10ad8328e53e560e5ef06b1a1ed56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:56 +0000
Subject: [PATCH 06/39] fix: mysql_statement releases the statement handle when
 reading its field metadata fails

---
 src/database/mysql/statement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 28d90c0..60f740a 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -79,6 +79,7 @@ mysql_statement::mysql_statement(pfi::lang::shared_ptr<mysql_connection_impl> &c
     MYSQL_FIELD *fld=mysql_fetch_fields(meta);
     if (fld==NULL){
       mysql_free_result(meta);
+      mysql_stmt_close(stmt);
       throw database_error("cannot fetch field metadata");
     }
     
-- 
2.43.0


From 13a935fdb2b4ede8d265d0a3e60154e7aab390fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 07/39] fix: moving an mmapper no longer unmaps and closes what
 the new object refers to

---
 src/system/mmapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/mmapper.h b/src/system/mmapper.h
index 204244b..85a9b71 100644
--- a/src/system/mmapper.h
+++ b/src/system/mmapper.h
@@ -47,8 +47,8 @@ public:
   typedef const char* const_iterator;
 
   mmapper() : ptr(NULL), length(0), fd(-1) {}
-  mmapper(mmapper&& rhs) : ptr(std::move(rhs.ptr)), length(std::move(rhs.length)), fd(std::move(rhs.fd)) {
-    mmapper().swap(rhs);
+  mmapper(mmapper&& rhs) : ptr(NULL), length(0), fd(-1) {
+    swap(rhs);
   }
   ~mmapper() { close(); }
 
-- 
2.43.0


From e60939b7aa26c159ddd7df3036c606d361c701b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 08/39] fix: a closed mmapper has size 0 and an empty range

---
 src/system/mmapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/mmapper.cpp b/src/system/mmapper.cpp
index ce1af2e..d857a28 100644
--- a/src/system/mmapper.cpp
+++ b/src/system/mmapper.cpp
@@ -78,6 +78,7 @@ int mmapper::close()
   if (ptr != NULL) {
     munmap(ptr, length);
     ptr = NULL;
+    length = 0;
   }
   return 0;
 }
-- 
2.43.0


From 2ab8dd36e71243e2661b706952dd11472aea80bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:56 +0000
Subject: [PATCH 09/39] fix: rpc_server does not run a procedure for a request
 whose version was not received

---
 src/network/rpc/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index d23306c..2c3e145 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -213,7 +213,9 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       }
 
       int req_ver;
-      if (ia >> req_ver && req_ver!=version){
+      if (!(ia >> req_ver))
+        break;
+      if (req_ver!=version){
         string msg(string("VersionMismatch ")+lexical_cast<string>(version)+" "+lexical_cast<string>(req_ver));
         oa<<msg;
         oa.flush();
-- 
2.43.0


From 44973607039dd59bdbbb1990d94bf228c1912aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:55 +0000
Subject: [PATCH 10/39] fix: statement::execute with 10 arguments and fetch_row
 with 8 to 10 columns no longer access past the end of the row

---
 src/database/statement.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/database/statement.h b/src/database/statement.h
index 98a0a91..3b52f82 100644
--- a/src/database/statement.h
+++ b/src/database/statement.h
@@ -154,7 +154,7 @@ public:
 
   template <class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10>
   int execute(T1 a1, T2 a2, T3 a3, T4 a4, T5 a5, T6 a6, T7 a7, T8 a8, T9 a9, T10 a10){
-    std::vector<pfi::lang::shared_ptr<sql_value> > args(9);
+    std::vector<pfi::lang::shared_ptr<sql_value> > args(10);
     args[0]=to_sql(a1);
     args[1]=to_sql(a2);
     args[2]=to_sql(a3);
@@ -256,7 +256,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=7) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -272,7 +272,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -281,7 +281,7 @@ public:
     r6=from_sql<T6>(ret[5]);
     r7=from_sql<T7>(ret[6]);
     r8=from_sql<T8>(ret[7]);
-    r9=from_sql<T8>(ret[8]);
+    r9=from_sql<T9>(ret[8]);
     return true;
   }
 
@@ -289,7 +289,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9, T10 &r10){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=10) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
-- 
2.43.0


From 612642265afe97863cd9decd0716f12fff513a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:55 +0000
Subject: [PATCH 11/39] fix: mysql_connection reports failed BEGIN, COMMIT and
 ROLLBACK instead of ignoring them

---
 src/database/mysql/connection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index ecdb188..a2b4081 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -109,17 +109,20 @@ mysql_connection::~mysql_connection()
 
 void mysql_connection::begin_transaction()
 {
-  (void)query("BEGIN");
+  if (query("BEGIN")!=0)
+    throw database_error(string("cannot begin transaction: ")+mysql_error(conn->get()));
 }
 
 void mysql_connection::commit()
 {
-  (void)query("COMMIT");
+  if (query("COMMIT")!=0)
+    throw database_error(string("cannot commit: ")+mysql_error(conn->get()));
 }
 
 void mysql_connection::rollback()
 {
-  (void)query("ROLLBACK");
+  if (query("ROLLBACK")!=0)
+    throw database_error(string("cannot rollback: ")+mysql_error(conn->get()));
 }
 
 int mysql_connection::query(const string &sql)
-- 
2.43.0


From 88d8a3b98492388e2947d339ceccb222b8c3080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:55 +0000
Subject: [PATCH 12/39] fix: a null sql_value is bound as NULL by
 mysql_statement, not as an empty decimal

---
 src/database/mysql/value.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index e9ee10e..1082d14 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -122,7 +122,8 @@ size_t bind_length(const pfi::lang::shared_ptr<sql_value>& p)
 void to_bind(const pfi::lang::shared_ptr<sql_value>& p, MYSQL_BIND &bind)
 {
   if (!p){
-    bind.is_null=NULL;
+    *bind.is_null=1;
+    bind.buffer_type=MYSQL_TYPE_NULL;
     return;
   }
 
-- 
2.43.0


From 5801c175076c2b519226b6fc4edd6c564ab023be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:55 +0000
Subject: [PATCH 13/39] fix: mysql_statement::fetch_row reports a failure to
 bind the result buffers

---
 src/database/mysql/statement.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/database/mysql/statement.cpp b/src/database/mysql/statement.cpp
index 60f740a..aa5fd1b 100644
--- a/src/database/mysql/statement.cpp
+++ b/src/database/mysql/statement.cpp
@@ -170,7 +170,9 @@ bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
       binds[i].is_null=&nulls[i];
     }
 
-    mysql_stmt_bind_result(stmt, &binds[0]);
+    if (mysql_stmt_bind_result(stmt, &binds[0])!=0)
+      throw database_error(string("cannot bind result: ")+
+                           mysql_stmt_error(stmt));
   }
 
   int rc=mysql_stmt_fetch(stmt);
@@ -188,7 +190,9 @@ bool mysql_statement::fetch_row(vector<pfi::lang::shared_ptr<sql_value> > &row)
                                mysql_stmt_error(stmt));
       }
     }
-    mysql_stmt_bind_result(stmt, &binds[0]);
+    if (mysql_stmt_bind_result(stmt, &binds[0])!=0)
+      throw database_error(string("cannot bind result: ")+
+                           mysql_stmt_error(stmt));
   }
 
   if (rc==MYSQL_NO_DATA)
-- 
2.43.0


From eff1d5fb196ae22f17c78baff1be842b8dc86a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:55 +0000
Subject: [PATCH 14/39] fix: destroying a postgresql_connection whose
 connection is lost does not terminate the program

---
 src/database/postgresql/connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 21e4b02..b3a54c2 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -90,7 +90,10 @@ postgresql_connection::postgresql_connection(const string &conninfo)
 
 postgresql_connection::~postgresql_connection()
 {
-  (void)connection::run("ROLLBACK");
+  try{
+    (void)connection::run("ROLLBACK");
+  }catch(...){
+  }
 }
 
 void postgresql_connection::begin_transaction()
-- 
2.43.0


From eb7ef3a500a4d9f06708a80abcd0a714245761c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:10 +0000
Subject: [PATCH 15/39] fix: a failing commit or rollback at the end of a
 transaction block no longer terminates the program

---
 src/database/util.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/database/util.h b/src/database/util.h
index 2650632..4fc062a 100644
--- a/src/database/util.h
+++ b/src/database/util.h
@@ -57,8 +57,13 @@ public:
     conn->begin_transaction();
   }
 
-  ~committer(){
-    if (std::uncaught_exception()) conn->rollback();
+  ~committer() noexcept(false){
+    if (std::uncaught_exception()){
+      try{
+        conn->rollback();
+      }catch(...){
+      }
+    }
     else conn->commit();
   }
 
-- 
2.43.0


From 98f81396c0848ac273f69f4c8a52da8f800a122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:11 +0000
Subject: [PATCH 16/39] fix: md5sum::calc no longer rebuilds a static table
 shared by all threads

---
 src/data/digest/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/digest/md5.cpp b/src/data/digest/md5.cpp
index 4b707cb..5aca4a7 100644
--- a/src/data/digest/md5.cpp
+++ b/src/data/digest/md5.cpp
@@ -71,7 +71,7 @@ void md5sum::calc(itr_buf_base &buf)
   c=0x98badcfe;
   d=0x10325476;
 
-  static uint32_t tbl[65];
+  uint32_t tbl[65];
 
   for (int i=0;i<=64;i++){
     double r=4294967296.0*abs(sin((double)i));
-- 
2.43.0


From 04c562d13c02a2d9a7eaee945b380bd53946a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:32 +0000
Subject: [PATCH 17/39] fix: sockets cannot be copied, so no descriptor is
 closed twice

---
 src/network/socket.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network/socket.h b/src/network/socket.h
index dd58275..d7276d4 100644
--- a/src/network/socket.h
+++ b/src/network/socket.h
@@ -38,6 +38,7 @@
 #include <stdint.h>
 
 #include "ipv4.h"
+#include "../lang/noncopyable.h"
 #include "../lang/shared_ptr.h"
 #include "../concurrent/mutex.h"
 
@@ -50,7 +51,7 @@ class socket_exception : public std::exception{
 class dns_resolver;
 class server_socket;
 
-class stream_socket{
+class stream_socket : pfi::lang::noncopyable{
   friend class server_socket;
 public:
   stream_socket();
@@ -115,7 +116,7 @@ private:
   static pfi::concurrent::r_mutex resolver_m;
 };
 
-class server_socket{
+class server_socket : pfi::lang::noncopyable{
 public:
   server_socket();
   ~server_socket();
-- 
2.43.0


From ca5282d8df1943f6c4996c68bd502d9edd0ddda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:32 +0000
Subject: [PATCH 18/39] fix: decoder and json_parser cannot be copied, so their
 buffers are freed once

---
 src/data/code/code.h   | 4 +++-
 src/text/json/parser.h | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/code/code.h b/src/data/code/code.h
index 43aadb5..efab5e2 100644
--- a/src/data/code/code.h
+++ b/src/data/code/code.h
@@ -37,6 +37,8 @@
 #include <ostream>
 #include <istream>
 
+#include "../../lang/noncopyable.h"
+
 namespace pfi {
 namespace data {
 namespace code {
@@ -96,7 +98,7 @@ namespace code {
     std::vector<unsigned char> bytes;
   };
 
-  class decoder {
+  class decoder : pfi::lang::noncopyable {
   public:
     decoder();
     ~decoder();
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 686f930..cfac434 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -35,6 +35,7 @@
 #include <iterator>
 
 #include "../../lang/exception.h"
+#include "../../lang/noncopyable.h"
 #include "../../data/string/ustring.h"
 
 #include "base.h"
@@ -43,7 +44,7 @@ namespace pfi {
 namespace text {
 namespace json {
 
-class json_parser {
+class json_parser : pfi::lang::noncopyable {
 public:
   json_parser(std::istream& is);
   ~json_parser();
-- 
2.43.0


From 34866b76b9c9042baa08043f19f000d318a26cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:32 +0000
Subject: [PATCH 19/39] fix: database handles' owners cannot be copied, so each
 handle is closed once

---
 src/database/mysql/connection_def.h      | 3 ++-
 src/database/mysql/statement.h           | 3 ++-
 src/database/postgresql/connection_def.h | 3 ++-
 src/database/postgresql/result.h         | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/database/mysql/connection_def.h b/src/database/mysql/connection_def.h
index 7799fe4..e80ff2f 100644
--- a/src/database/mysql/connection_def.h
+++ b/src/database/mysql/connection_def.h
@@ -37,6 +37,7 @@
 
 #include <mysql.h>
 
+#include "../../lang/noncopyable.h"
 #include "../connection.h"
 #include "statement.h"
 
@@ -44,7 +45,7 @@ namespace pfi{
 namespace database{
 namespace mysql{
 
-class mysql_connection_impl{
+class mysql_connection_impl : pfi::lang::noncopyable{
 public:
   mysql_connection_impl(const std::string &host,
                    const std::string &user,
diff --git a/src/database/mysql/statement.h b/src/database/mysql/statement.h
index fa0ec4d..b865fb1 100644
--- a/src/database/mysql/statement.h
+++ b/src/database/mysql/statement.h
@@ -42,6 +42,7 @@
 #include <mysql.h>
 
 #include "../statement.h"
+#include "../../lang/noncopyable.h"
 #include "../../lang/shared_ptr.h"
 
 namespace pfi{
@@ -50,7 +51,7 @@ namespace mysql{
 
 class mysql_connection_impl;
 
-class mysql_statement : public statement{
+class mysql_statement : public statement, pfi::lang::noncopyable{
 public:
   mysql_statement(pfi::lang::shared_ptr<mysql_connection_impl> &conn,
                   const std::string &query);
diff --git a/src/database/postgresql/connection_def.h b/src/database/postgresql/connection_def.h
index 42fd450..9b1d418 100644
--- a/src/database/postgresql/connection_def.h
+++ b/src/database/postgresql/connection_def.h
@@ -34,12 +34,13 @@
 
 #include "../connection.h"
 #include "statement.h"
+#include "../../lang/noncopyable.h"
 
 namespace pfi{
 namespace database{
 namespace postgresql{
 
-class postgresql_connection_impl{
+class postgresql_connection_impl : pfi::lang::noncopyable{
 public:
   postgresql_connection_impl(const std::string &conninfo);
   ~postgresql_connection_impl();
diff --git a/src/database/postgresql/result.h b/src/database/postgresql/result.h
index 319b56a..ea4d1cc 100644
--- a/src/database/postgresql/result.h
+++ b/src/database/postgresql/result.h
@@ -37,13 +37,14 @@
 #include <libpq-fe.h>
 
 #include "../type.h"
+#include "../../lang/noncopyable.h"
 #include "../../lang/shared_ptr.h"
 
 namespace pfi{
 namespace database{
 namespace postgresql{
 
-class postgresql_result{
+class postgresql_result : pfi::lang::noncopyable{
 public:
   postgresql_result(PGresult *res);
   ~postgresql_result();
-- 
2.43.0


From 8716ac302343a1dd5fd00da9c857c5633fa89d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 20/39] fix: deserializing a stream from a truncated archive
 stops instead of looping forever

---
 src/data/serialization/iostream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/serialization/iostream.h b/src/data/serialization/iostream.h
index 093ec7c..cd169b8 100644
--- a/src/data/serialization/iostream.h
+++ b/src/data/serialization/iostream.h
@@ -103,9 +103,11 @@ void serialize(Archive &ar, std::iostream &ios)
     char c[2]={};
     for (;;){
       ar & c[0];
+      if (!ar)
+        break;
       if (static_cast<unsigned char>(c[0])==0xff){
         ar & c[1];
-        if (c[1]==0x00)
+        if (!ar || c[1]==0x00)
           break;
         *p=0xff;
       }
-- 
2.43.0


From c90a81f1e56db15eee3efb345282a75cb4fb726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:16 +0000
Subject: [PATCH 21/39] fix: a set read from a truncated archive holds no
 uninitialised elements

---
 src/data/serialization/set.h           | 2 +-
 src/data/serialization/unordered_set.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/serialization/set.h b/src/data/serialization/set.h
index 6694c6c..1f116c6 100644
--- a/src/data/serialization/set.h
+++ b/src/data/serialization/set.h
@@ -49,7 +49,7 @@ void serialize(Archive &ar, std::set<T, Compare, Allocator> &s)
   if (ar.is_read){
     s.clear();
     while(size--){
-      T v;
+      T v = T();
       ar & v;
       s.insert(v);
     }
diff --git a/src/data/serialization/unordered_set.h b/src/data/serialization/unordered_set.h
index 8820521..080d140 100644
--- a/src/data/serialization/unordered_set.h
+++ b/src/data/serialization/unordered_set.h
@@ -50,7 +50,7 @@ void serialize(Archive &ar, unordered_set<T, H, P, A> &s)
   if (ar.is_read){
     s.clear();
     while(size--){
-      T v;
+      T v = T();
       ar & v;
       s.insert(v);
     }
-- 
2.43.0


From aa4ba0bd0cc91fd7be2088ac83b41544edbeddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:16 +0000
Subject: [PATCH 22/39] fix: an id outside the table in a broken archive no
 longer writes past an intern's table

---
 src/data/intern.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/intern.h b/src/data/intern.h
index 6d92a18..88df5c3 100644
--- a/src/data/intern.h
+++ b/src/data/intern.h
@@ -136,8 +136,11 @@ private:
       intern tmp;
       ar & tmp.tbl;
       tmp.lbt.resize(tmp.tbl.size());
-      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it)
+      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it) {
+        if (!tmp.exist_id(it->second))
+          return; // broken archive
         tmp.lbt[it->second] = it->first;
+      }
       swap(tmp);
     } else {
       ar & tbl;
-- 
2.43.0


From a2c7e7bf4568ec9d439d7d9a1e8047b0e3533611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:22 +0000
Subject: [PATCH 23/39] fix: printing a JSON string no longer stops at an
 embedded NUL

---
 src/text/json/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text/json/base.h b/src/text/json/base.h
index b608a95..32ff293 100644
--- a/src/text/json/base.h
+++ b/src/text/json/base.h
@@ -297,13 +297,14 @@ public:
     if (escape) {
       const char* p = dat.c_str();
       const char* end = p + dat.size();
-      while (*p) {
+      while (p != end) {
         pfi::data::string::uchar uc = pfi::data::string::chars_to_uchar(p, end);
         print_char(os, uc);
       }
     } else {
       const char* p = dat.c_str();
-      while (*p) {
+      const char* end = p + dat.size();
+      while (p != end) {
         print_char_without_escape(os, *p++);
       }
     }
-- 
2.43.0


From 1a98903ad5932009b84dc6c8748477cc8d409d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:44 +0000
Subject: [PATCH 24/39] fix: outer product of component_by_array vectors
 compiles

---
 src/math/vector.h            | 4 ++--
 src/math/vector_operators.rb | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/vector.h b/src/math/vector.h
index 0624997..d4c94d1 100644
--- a/src/math/vector.h
+++ b/src/math/vector.h
@@ -279,7 +279,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     t operator%(const vector2<t> & a, const vector2<t> & b){
-    return a.x*b.y - a.y*b.x;
+    return a.r[0]*b.r[1] - a.r[1]*b.r[0];
   }
 
   /// +=
@@ -610,7 +610,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     vector3<t> operator%(const vector3<t> & a, const vector3<t> & b){
-    return vector3<t>(a.y*b.z - a.z*b.y,a.z*b.x - a.x*b.z,a.x*b.y - a.y*b.x);
+    return vector3<t>(a.r[1]*b.r[2] - a.r[2]*b.r[1],a.r[2]*b.r[0] - a.r[0]*b.r[2],a.r[0]*b.r[1] - a.r[1]*b.r[0]);
   }
 
   /// +=
diff --git a/src/math/vector_operators.rb b/src/math/vector_operators.rb
index 8454b2a..df460ba 100644
--- a/src/math/vector_operators.rb
+++ b/src/math/vector_operators.rb
@@ -65,14 +65,14 @@ CPPEND
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{scalar} operator%(const #{mytype} & a, const #{mytype} & b){
-    return a.x*b.y - a.y*b.x;
+    return a.#{cs[0]}*b.#{cs[1]} - a.#{cs[1]}*b.#{cs[0]};
   }
 CPPEND
   ret+= <<CPPEND if dim == 3 
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{mytype} operator%(const #{mytype} & a, const #{mytype} & b){
-    return #{constructor['a.y*b.z - a.z*b.y', 'a.z*b.x - a.x*b.z', 'a.x*b.y - a.y*b.x' ]};
+    return #{constructor[[[1,2],[2,0],[0,1]].map{|i,j| "a.#{cs[i]}*b.#{cs[j]} - a.#{cs[j]}*b.#{cs[i]}"}]};
   }
 CPPEND
 
-- 
2.43.0


From e21761bd22e3f841d3463deec77938a20bf50c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:44 +0000
Subject: [PATCH 25/39] fix: ratio a/=a no longer reads the numerator it has
 just overwritten

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 6f51542..0c5e08c 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -117,8 +117,9 @@ template<class T>
 inline ratio<T>& operator/=(ratio<T> &a, const ratio<T> &b){
   T gcd1=ratio<T>::gcd(a.num_, b.num_);
   T gcd2=ratio<T>::gcd(a.den_, b.den_);
-  a.num_=(a.num_/gcd1)*(b.den_/gcd2);
+  T num=(a.num_/gcd1)*(b.den_/gcd2);
   a.den_=(a.den_/gcd2)*(b.num_/gcd1);
+  a.num_=num;
   if(a.den_<0){
     a.num_*=-1; a.den_*=-1;
   }
-- 
2.43.0


From e8932ef79c1e3e55033de5c12b5d40ad7e54ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:44 +0000
Subject: [PATCH 26/39] fix: calendar_time built from its fields no longer uses
 an uninitialised isdst

---
 src/system/time_util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/time_util.cpp b/src/system/time_util.cpp
index 1b0761c..f7d38cd 100644
--- a/src/system/time_util.cpp
+++ b/src/system/time_util.cpp
@@ -98,6 +98,7 @@ calendar_time::calendar_time(
   , min(min)
   , sec(sec)
   , usec(usec)
+  , isdst(false)
 {
   clock_time ct(*this);
   *this=calendar_time(ct);
-- 
2.43.0


From 352f1ef3e978907b67f2cfbbeaf043b22ca23454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 27/39] fix: ratio::gcd no longer truncates long values to int

---
 src/math/ratio.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 0c5e08c..3dec9ef 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -59,6 +59,7 @@ public:
 private:
   T num_, den_;
   static T gcd(T a, T b){
+    using std::abs;
     a=abs(a); b=abs(b);
     while(true){
       a=a%b;
-- 
2.43.0


From 890514c98bf952daa740ad9688c442e3c31cc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:45 +0000
Subject: [PATCH 28/39] fix: cached DNS entries expire: their age counts from
 their resolution, not from the access being made

---
 src/network/dns.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index adcaaa1..1af7a94 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -111,7 +111,8 @@ private:
   int expire_second;
 
   std::map<std::pair<std::string, uint16_t>,
-    std::pair<std::vector<ipv4_address>, time_t> > cache;
+    std::pair<std::pair<std::vector<ipv4_address>, time_t>, time_t> > cache;
+    // ((addresses, time of resolution), last access time)
 
   std::multiset<std::pair<time_t, std::pair<std::string, uint16_t> > > access_time;
 
@@ -192,8 +193,8 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
         cache[key].second = cur;
 
         // is not expire
-        if (cur-cache[key].second < expire_second) {
-          return cache[key].first;
+        if (cur-cache[key].first.second < expire_second) {
+          return cache[key].first.first;
         }
 
         // expire, so delete cache
@@ -221,7 +222,7 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
       // register to cache
       access_time.insert(make_pair(cur, key));
-      cache[key] = make_pair(ret, cur);
+      cache[key] = make_pair(make_pair(ret, cur), cur);
     }
   }
 
-- 
2.43.0


From 2607c443e75e7082c4628666342e0a5da00b3e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:50 +0000
Subject: [PATCH 29/39] fix: a DNS key resolved by two threads at once is
 registered once

---
 src/network/dns.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index 1af7a94..579f6f1 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -211,6 +211,12 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
   {
     pfi::concurrent::scoped_lock lock(m);
     if (lock) {
+      // another thread may have registered the same key meanwhile
+      if (cache.count(key) != 0) {
+        access_time.erase(make_pair(cache[key].second, key));
+        cache.erase(key);
+      }
+
       // is cache full?
       while ((int)cache.size() >= max_size) {
         assert(access_time.size() == cache.size());
-- 
2.43.0


From 7116dbda7d52f6e1a2780f321b9ebb45630db549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:09 +0000
Subject: [PATCH 30/39] fix: a DNS cache of size 0 no longer evicts from an
 empty cache

---
 src/network/dns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index 579f6f1..c1f863c 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -210,7 +210,7 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
   {
     pfi::concurrent::scoped_lock lock(m);
-    if (lock) {
+    if (lock && max_size > 0) {
       // another thread may have registered the same key meanwhile
       if (cache.count(key) != 0) {
         access_time.erase(make_pair(cache[key].second, key));
-- 
2.43.0


From 2e50e0708e6eae39b2b91b4a28cc6937591ef595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:45 +0000
Subject: [PATCH 31/39] fix: a stream_socket that gets a new descriptor no
 longer delivers bytes of the old connection

---
 src/network/socket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 772b8b7..83df380 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -158,6 +158,8 @@ bool stream_socket::bind_socket(int sock, const ipv4_address &addr, uint16_t por
       return false;
 
   this->sock=sock;
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
   connected=true;
   raddr=addr;
   rport=port;
@@ -173,6 +175,8 @@ bool stream_socket::open()
     sock=-1;
     return false;
   }
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
   return true;
 }
 
-- 
2.43.0


From 5af889ffa80606c885921db33a2fb187d8f89a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:08 +0000
Subject: [PATCH 32/39] fix: chunked http body ended at the first 0xff byte

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f8304de..0caff05 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -249,7 +249,7 @@ public:
       fill();
     if (empty())
       return T::eof();
-    return buf[buf_pos];
+    return T::to_int_type(buf[buf_pos]);
   }
 
 private:
-- 
2.43.0


From 5bac8505c1885a619cd1ed57cee5b99ea33d501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:08 +0000
Subject: [PATCH 33/39] fix: http body of length 0 took bytes of the next
 message

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 0caff05..ce7c130 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -350,7 +350,7 @@ public:
 
   int underflow() {
     if (buf == T::eof()) {
-      if (!sock)
+      if (!sock || rest <= 0)
         return T::eof();
       buf = sock->getc();
       if (--rest == 0)
-- 
2.43.0


From b48dfe099cdd55b9b98eb4eb8cd68df10724c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:08 +0000
Subject: [PATCH 34/39] fix: negative http chunk size crashed the reader

---
 src/network/http/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index ce7c130..9d4c783 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -320,7 +320,8 @@ private:
     // line = chunk-size [chunk-extension] CRLF
 
     istringstream iss(line);
-    iss >> hex >> chunk_rest;
+    if (!(iss >> hex >> chunk_rest) || chunk_rest < 0)
+      throw http_exception("invalid chunk size");
   }
 
   pfi::lang::shared_ptr<stream_socket> sock;
-- 
2.43.0


From d193da50ac914b8b08a443a191dd8b8fe7a54a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:54 +0000
Subject: [PATCH 35/39] fix: json: a character already read is not the end of
 the input

parse_number() and ss() took 'the stream is at its end' for 'the input is
used up' although peek() may still hold the last character: 1e5 at the end
of the input was read as 1, and white space at the end as a parse error
instead of end_of_data.
---
 src/text/json/parser.cpp | 8 ++++----
 src/text/json/parser.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index e00e6ed..d5bfcea 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -247,17 +247,17 @@ void json_parser::parse_number(callback& cb)
     incr();
   }
 
-  if (it != end && peek() == '.') {
+  if ((cbuf != -1 || it != end) && peek() == '.') {
     is_frac = true;
     src += '.';
     incr();
-    while (it != end && safe_isdigit(peek())) {
+    while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
       src += peek();
       incr();
     }
   }
 
-  if (it != end && (peek() == 'e' || peek() == 'E')) {
+  if ((cbuf != -1 || it != end) && (peek() == 'e' || peek() == 'E')) {
     is_frac = true;
     src += peek();
     incr();
@@ -271,7 +271,7 @@ void json_parser::parse_number(callback& cb)
     }
   }
 
-  while (it != end && safe_isdigit(peek())) {
+  while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
     src += peek();
     incr();
   }
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index cfac434..5ddf5a2 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -116,7 +116,7 @@ private:
     return c;
   }
   void ss() {
-    while(it != end && safe_isspace(peek()))
+    while((cbuf != -1 || it != end) && safe_isspace(peek()))
       incr();
   }
 
-- 
2.43.0


From 437e4cdf1dad27cd518f9e6c3128273ebbd5852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:59 +0000
Subject: [PATCH 36/39] fix: a socketstream without a socket crashed on use
 instead of failing

---
 src/network/iostream.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index bbc9922..81592b6 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -86,33 +86,34 @@ public:
   }
 
   bool is_connected() const{
-    if (!sock->get()) return false;
-    return sock->get()->is_connected();
+    if (!socket()) return false;
+    return socket()->is_connected();
   }
 
   stream_socket *socket() const{
-    return sock->get();
+    return sock.get()?sock->get():0;
   }
 
   // virtual protected members
 
   std::streamsize xsputn(const char_type *s, std::streamsize n){
-    if (!sock->get()) return 0;
-    int res=sock->get()->write(s, sizeof(char_type)*n);
+    if (!socket()) return 0;
+    int res=socket()->write(s, sizeof(char_type)*n);
     if (res<0) return 0;
     return res;
   }
 
   int overflow(int c){
-    if (!sock->get()) return T::eof();
+    if (!socket()) return T::eof();
     char d=static_cast<char>(c);
-    int res=sock->get()->write(&d, sizeof(char_type));
+    int res=socket()->write(&d, sizeof(char_type));
     if (res<0) return T::eof();
     return res==0?T::eof():0;
   }
 
   int sync(){
-    int res=sock->get()->flush();
+    if (!socket()) return -1;
+    int res=socket()->flush();
     return res<0?0:-1;
   }
 
@@ -124,8 +125,8 @@ public:
 
   int underflow(){
     if (buf==T::eof()){
-      if (!sock->get()) return T::eof();
-      buf=sock->get()->getc();
+      if (!socket()) return T::eof();
+      buf=socket()->getc();
     }
     return buf;
   }
-- 
2.43.0


From 3fdd4e9ac5bdc7f0a4b562f3b739c34988da5d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 37/39] fix: a socketstream given a new socket delivered a byte
 of the old one

---
 src/network/iostream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index 81592b6..b0c4fac 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -60,6 +60,7 @@ public:
     this->sock=
       pfi::lang::shared_ptr<socket_holder>
       (new socket_holder_impl<pfi::lang::shared_ptr<stream_socket> >(sock));
+    buf=T::eof();
     return sock->connect(host, port);
   }
 
@@ -83,6 +84,7 @@ public:
   template <class PSOCK>
   void setsock(PSOCK sock){
     this->sock=pfi::lang::shared_ptr<socket_holder>(new socket_holder_impl<PSOCK>(sock));
+    buf=T::eof();
   }
 
   bool is_connected() const{
-- 
2.43.0


From 90e9c46c47f9944932b64d8d45fc08b6ce02dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:29 +0000
Subject: [PATCH 38/39] fix: csv: the end mark of a field was written behind a
 full buffer

---
 src/text/csv.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text/csv.h b/src/text/csv.h
index b86a722..3790b72 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -133,6 +133,7 @@ private:
           }
         }
 
+        if (bufcnt>=buf.size()) extend();
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
-- 
2.43.0


From f416cc0addf7359eba1b6d09c34a87a6819c23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:29 +0000
Subject: [PATCH 39/39] fix: csv: text that ends within a quoted field, after a
 comma or a carriage return was read past its end

---
 src/text/csv.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index 3790b72..bcc5085 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -114,12 +114,12 @@ private:
       for (size_t bufcnt=0; ; ){
         size_t start=bufcnt;
 
-        if (*p=='\"'){
+        if (p != q && *p=='\"'){
           p++;
-          for (;;){
+          while(p != q){
             if (*p=='\"'){
               p++;
-              if (*p!='\"') break;
+              if (p == q || *p!='\"') break;
             }
             if (bufcnt>=buf.size()) extend();
             buf[bufcnt++]=*p++;
@@ -138,6 +138,7 @@ private:
         cur.push_back(&buf[start]);
         if (p == q) break;
         if (*p=='\r') p++;
+        if (p == q) break;
         if (*p=='\n'){ p++; break; }
         p++;
       }
-- 
2.43.0

