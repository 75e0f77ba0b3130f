From 6742b656b088ff15ae56fe9fbda71b4d61203c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 01/39] fix: auth_simple: read the session and target tables
 without racing

process_search/process_scan read userBySession without the mutex that
process_init holds while inserting, and check_targets used operator[]
which inserts into a map shared by all sessions.
---
 src/filter_auth_simple.cpp | 43 ++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 2948e33..1a7496e 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -55,6 +55,15 @@ namespace metaproxy_1 {
             Rep() { got_userRegister = false;
                     got_targetRegister = false;
                     discardUnauthorisedTargets = false; }
+            bool session_user(const mp::Session &session, std::string &user) {
+                boost::mutex::scoped_lock lock(mutex);
+                std::map<mp::Session, std::string>::const_iterator it =
+                    userBySession.find(session);
+                if (it == userBySession.end())
+                    return false;
+                user = it->second;
+                return true;
+            }
         };
     }
 }
@@ -279,11 +288,11 @@ void yf::AuthSimple::process_init(mp::Package &package) const
     if (user.length() == 0)
         return reject_init(package, 0, "no credentials supplied");
 
-    if (m_p->userRegister.count(user)) {
+    std::map<std::string, Rep::PasswordAndDBs>::const_iterator it =
+        m_p->userRegister.find(user);
+    if (it != m_p->userRegister.end()) {
         // groupId is ignored, in accordance with ancient tradition.
-        yf::AuthSimple::Rep::PasswordAndDBs pdbs =
-            m_p->userRegister[user];
-        if (pdbs.password == password) {
+        if (it->second.password == password) {
             // Success!  Remember who the user is for future reference
             {
                 boost::mutex::scoped_lock lock(m_p->mutex);
@@ -314,13 +323,17 @@ void yf::AuthSimple::process_search(mp::Package &package) const
     Z_SearchRequest *req =
         package.request().get()->u.z3950->u.searchRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    if (!m_p->session_user(package.session(), user)) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
-    yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
+    yf::AuthSimple::Rep::PasswordAndDBs pdb;
+    std::map<std::string, Rep::PasswordAndDBs>::const_iterator it =
+        m_p->userRegister.find(user);
+    if (it != m_p->userRegister.end())
+        pdb = it->second;
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
             !contains(pdb.dbs, "*")) {
@@ -346,13 +359,17 @@ void yf::AuthSimple::process_scan(mp::Package &package) const
     Z_ScanRequest *req =
         package.request().get()->u.z3950->u.scanRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    if (!m_p->session_user(package.session(), user)) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
-    yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
+    yf::AuthSimple::Rep::PasswordAndDBs pdb;
+    std::map<std::string, Rep::PasswordAndDBs>::const_iterator it =
+        m_p->userRegister.find(user);
+    if (it != m_p->userRegister.end())
+        pdb = it->second;
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
             !contains(pdb.dbs, "*")) {
@@ -391,7 +408,11 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
 
     std::string password;
     std::string user = get_user(initReq, password);
-    std::list<std::string> authorisedTargets = m_p->targetsByUser[user];
+    std::list<std::string> authorisedTargets;
+    std::map<std::string, std::list<std::string> >::const_iterator it =
+        m_p->targetsByUser.find(user);
+    if (it != m_p->targetsByUser.end())
+        authorisedTargets = it->second;
 
     std::list<std::string> targets;
     Z_OtherInformation **otherInfo = &initReq->otherInfo;
-- 
2.43.0


From 3ea885afda56e42485db5e61e8bdbd954860ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 02/39] fix: thread pool: read the thread counters under their
 mutex

---
 src/thread_pool_observer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool_observer.cpp b/src/thread_pool_observer.cpp
index 7fdc43a..c994946 100644
--- a/src/thread_pool_observer.cpp
+++ b/src/thread_pool_observer.cpp
@@ -184,13 +184,15 @@ void ThreadPoolSocketObserver::socketNotify(int event)
             {
                 size_t input_size = 0;
                 std::ostringstream os;
+                int tbusy, total;
+                get_thread_info(tbusy, total);
                 {
                     boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
                     input_size = m_p->m_input.size();
                 }
                 os << "tbusy/total "
-                    << m_p->m_no_threads - m_p->m_waiting_threads
-                    << "/" << m_p->m_no_threads
+                    << tbusy
+                    << "/" << total
                     << " queue in/out " << input_size << "/" <<  output_size;
                 out->result(os.str().c_str());
             }
@@ -200,6 +202,7 @@ void ThreadPoolSocketObserver::socketNotify(int event)
 
 void ThreadPoolSocketObserver::get_thread_info(int &tbusy, int &total)
 {
+    boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
     tbusy = m_p->m_no_threads - m_p->m_waiting_threads;
     total = m_p->m_no_threads;
 }
-- 
2.43.0


From 74c929098ffd19ae6736e29b56c55b311f0246bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 03/39] fix: session_shared: hold the backend class mutex for
 its lists

get_set added the new result set to a backend that other sessions search
under the mutex, and stat() walked the backend list without it.
---
 src/filter_session_shared.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 8b2e304..af7b3b2 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -551,6 +551,7 @@ void yf::SessionShared::Rep::stat()
         {
             BackendClassPtr bc = it->second;
             no_classes++;
+            boost::mutex::scoped_lock class_lock(bc->m_mutex_backend_class);
             BackendInstanceList::iterator bit = bc->m_backend_list.begin();
             for (; bit != bc->m_backend_list.end(); bit++)
                 no_instances++;
@@ -916,6 +917,7 @@ restart:
             package.response() = f_apdu;
             return;
         }
+        boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
         if (bc->m_named_result_sets)
         {
             result_set_id = boost::io::str(
@@ -1013,6 +1015,7 @@ restart:
         found_backend.reset();
         goto restart;
     }
+    boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
     found_backend->m_sets.push_back(found_set);
 }
 
-- 
2.43.0


From a518863f0be77c4bddabe676a9c7c7b84d1dc0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 04/39] fix: session_map: exist() must hold the map mutex

---
 include/metaproxy/session.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index 93951eb..a713321 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -108,6 +108,7 @@ namespace metaproxy_1 {
         };
 #endif
         bool exist(const metaproxy_1::Session &s) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
             it = m_map.find(s);
             return it == m_map.end() ? false : true;
-- 
2.43.0


From 1a07a8c64d1fef1c88ec66361680288dbbe5444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:47 +0000
Subject: [PATCH 05/39] fix: cql_rpn: serialise use of the shared transform;
 free the buffer on error

---
 src/filter_cql_rpn.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index dbe84e3..d522dbf 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -24,6 +24,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "filter_cql_rpn.hpp"
 
+#include <boost/thread/mutex.hpp>
+
 #include <yazpp/z-query.h>
 #include <yaz/cql.h>
 #include <yazpp/cql2rpn.h>
@@ -45,6 +47,8 @@ namespace metaproxy_1 {
             void process(metaproxy_1::Package & package);
             void configure(const xmlNode *ptr, const char *path);
         private:
+            // the transform keeps its error state in the shared object
+            boost::mutex m_mutex;
             yazpp_1::Yaz_cql2rpn m_cql2rpn;
             bool reverse;
         };
@@ -158,10 +162,15 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             mp::odr odr;
             WRBUF cql = wrbuf_alloc();
 
-            int r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
                                                 odr, &addinfo);
+            }
             if (r)
             {
+                wrbuf_destroy(cql);
                 Z_APDU *f_apdu =
                     odr.create_searchResponse(apdu_req, r, addinfo);
                 package.response() = f_apdu;
@@ -192,9 +201,13 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             Z_RPNQuery *rpnquery = 0;
             mp::odr odr;
 
-            int r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
-                                                 &rpnquery, odr,
-                                                 &addinfo);
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
+                                              &rpnquery, odr,
+                                              &addinfo);
+            }
             if (r == -3)
             {
                 Z_APDU *f_apdu =
-- 
2.43.0


From 5892dfdae8c7235eea8b66085211aa168ee7eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:01 +0000
Subject: [PATCH 06/39] fix: do not hold filter-wide mutexes while moving
 packages

---
 src/filter_multi.cpp          | 8 ++++++--
 src/filter_session_shared.cpp | 2 ++
 src/filter_virt_db.cpp        | 8 ++++++--
 src/filter_z3950_client.cpp   | 1 +
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5c581e5..41c9aab 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -207,8 +207,12 @@ void yf::Multi::Rep::release_frontend(mp::Package &package)
     {
         if (package.session().is_closed())
         {
-            it->second->close(package);
-            m_clients.erase(it);
+            // frontend is still in use, so it can not go away meanwhile
+            FrontendPtr f = it->second;
+            lock.unlock();
+            f->close(package);
+            lock.lock();
+            m_clients.erase(package.session());
         }
         else
         {
diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index af7b3b2..84984db 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -515,7 +515,9 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
     {
         init_package.copy_filter(frontend_package);
         init_package.session().close();
+        lock.unlock();
         init_package.move();
+        lock.lock();
     }
     m_no_failed++;
     m_cond_set_ready.notify_all();
diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index de7f09a..4bb81af 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -436,8 +436,12 @@ void yf::VirtualDB::Rep::release_frontend(mp::Package &package)
     {
         if (package.session().is_closed())
         {
-            it->second->close(package);
-            m_clients.erase(it);
+            // frontend is still in use, so it can not go away meanwhile
+            FrontendPtr f = it->second;
+            lock.unlock();
+            f->close(package);
+            lock.lock();
+            m_clients.erase(package.session());
         }
         else
         {
diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 627ed34..630073e 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -368,6 +368,7 @@ yf::Z3950Client::Assoc *yf::Z3950Client::Rep::get_assoc(Package &package)
     }
     if (!gdu || gdu->which != Z_GDU_Z3950)
     {
+        lock.unlock();
         package.move();
         return 0;
     }
-- 
2.43.0


From 27947ee77ec7a606fcb3f4ef3984f66520a836d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 07/39] fix: session_shared: expire thread must not miss
 shutdown

---
 src/filter_session_shared.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 84984db..0d5841b 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1387,7 +1387,8 @@ void yf::SessionShared::Rep::expire()
         xt.sec += m_session_ttl;
         {
             boost::mutex::scoped_lock lock(m_mutex);
-            m_cond_expire_ready.timed_wait(lock, xt);
+            if (!close_down)
+                m_cond_expire_ready.timed_wait(lock, xt);
             if (close_down)
                 break;
         }
-- 
2.43.0


From fa293d50123e298a820d7767b7daf2059e55d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 08/39] fix: session_shared: wake waiters when a backend is
 removed

---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 0d5841b..9fbb4ef 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -323,6 +323,8 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
             if (*it == b)
             {
                 it = m_backend_list.erase(it);
+                // sessions waiting for this backend must look again
+                m_cond_set_ready.notify_all();
                 break;
             }
             it++;
-- 
2.43.0


From 99a4f9878fe9c1c1325ebc6937950418aca9b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 09/39] fix: session_shared: close expired backends without
 holding the locks

---
 src/filter_session_shared.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 9fbb4ef..1c8c764 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -127,7 +127,7 @@ namespace metaproxy_1 {
                                            int &code, std::string &addinfo);
             void use_backend(BackendInstancePtr b);
             void release_backend(BackendInstancePtr b);
-            bool expire_instances();
+            bool expire_instances(BackendInstanceList &expired);
             yazpp_1::GDU m_init_request;
             yazpp_1::GDU m_init_response;
             boost::mutex m_mutex_backend_class;
@@ -1324,7 +1324,8 @@ void yf::SessionShared::Worker::operator() (void)
     m_p->expire();
 }
 
-bool yf::SessionShared::BackendClass::expire_instances()
+bool yf::SessionShared::BackendClass::expire_instances(
+    BackendInstanceList &expired)
 {
     time_t now;
     time(&now);
@@ -1344,6 +1345,7 @@ bool yf::SessionShared::BackendClass::expire_instances()
         {
             yaz_log(YLOG_LOG, "session_shared id=%ld erase",
                     (*bit)->m_session.id());
+            expired.push_back(*bit);
             bit = m_backend_list.erase(bit);
         }
         else
@@ -1360,11 +1362,13 @@ bool yf::SessionShared::BackendClass::expire_instances()
 
 void yf::SessionShared::Rep::expire_classes()
 {
+    // closes (and moves) expired backends after the lock is released
+    BackendInstanceList expired;
     boost::mutex::scoped_lock lock(m_mutex_backend_map);
     BackendClassMap::iterator b_it = m_backend_map.begin();
     while (b_it != m_backend_map.end())
     {
-        if (b_it->second->expire_instances())
+        if (b_it->second->expire_instances(expired))
         {
             m_backend_map.erase(b_it);
             b_it = m_backend_map.begin();
-- 
2.43.0


From bb00e9c18adae3dac7b5a97f01dccd0d5d13a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:00 +0000
Subject: [PATCH 10/39] fix: session_shared: forget the result set when a
 session is restarted

---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 1c8c764..c00c7eb 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -981,6 +981,7 @@ restart:
             package.log("session_shared", YLOG_LOG, "restart");
             bc->remove_backend(found_backend);
             session_restarted = true;
+            found_set.reset();
             found_backend.reset();
             goto restart;
 
@@ -1016,6 +1017,7 @@ restart:
         package.log("session_shared", YLOG_LOG, "restart");
         bc->remove_backend(found_backend);
         session_restarted = true;
+        found_set.reset();
         found_backend.reset();
         goto restart;
     }
-- 
2.43.0


From dd96c8db854566567680594eab586121f0eb474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 11/39] fix: html_parser: report comments that are not
 terminated

---
 src/html_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 95db7c7..6fedc78 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -236,7 +236,6 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
                     if (cp[i] == '-' && cp[i+1] == '-' && cp[i+2] == '>')
                     {
                         i+= 2;
-                        event.openTagStart(cp, i);
                         break;
                     }
             }
@@ -244,8 +243,8 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
             {
                 for (i = 1; cp[i] && cp[i] != '>'; i++)
                     ;
-                event.openTagStart(cp, i);
             }
+            event.openTagStart(cp, i);
             if (m_verbose)
                 printf("------ dtd %.*s\n", i, cp);
             i += tagEnd(event, cp, i, cp + i);
-- 
2.43.0


From 7ca6172f7af12a252338b028d744d489aa014903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 12/39] fix: url recipe: only a whole md- prefix is taken off a
 field name

Any name starting with m, d or - lost its first three characters, so
${date} named field e, and a shorter name was read behind its end.
---
 src/url_recipe.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/url_recipe.cpp b/src/url_recipe.cpp
index 3386d8f..9db10cf 100644
--- a/src/url_recipe.cpp
+++ b/src/url_recipe.cpp
@@ -110,8 +110,7 @@ std::string mp_xml::url_recipe_handle(xmlDoc *doc, std::string recipe)
         {
             std::string text;
             size_t offset = 0;
-            size_t md_pos = variable.find_first_of("md-");
-            if (md_pos == 0)
+            if (variable.compare(0, 3, "md-") == 0)
                 offset = 3;
             const xmlNode *ptr = ptr1;
             for (; ptr; ptr = ptr->next)
-- 
2.43.0


From 7338eae01e28e6061fa1630d0a0d4ae458277290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:41 +0000
Subject: [PATCH 13/39] fix: an unknown element among the routes is refused

Parsing stopped silently at the first element of <routes> that was not a
route, so all routes after it were missing without any message.
---
 src/router_flexml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index dad380d..54b65ba 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -267,6 +267,10 @@ void mp::RouterFleXML::Rep::parse_xml_routes(xmlDocPtr doc,
             m_routes[id_value] = route;
         node = mp::xml::jump_to_next(node, XML_ELEMENT_NODE);
     }
+    if (node)
+        throw mp::XMLError("Unexpected element "
+                           + std::string((const char *) node->name)
+                           + " in element 'routes'");
 }
 
 void mp::RouterFleXML::Rep::check_routes_in_filters(const xmlNode *node)
-- 
2.43.0


From 29a712494d360590851c2687eb469df53542e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:41 +0000
Subject: [PATCH 14/39] fix: http_rewrite refuses unknown elements in a content
 section

They were skipped, so a misspelled within did nothing silently.
---
 src/filter_http_rewrite.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index a4b865b..afaca15 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -863,6 +863,12 @@ void yf::HttpRewrite::Content::configure(
                      " in http_rewrite filter");
             within_list.push_back(w);
         }
+        else
+        {
+            throw mp::filter::FilterException
+                ("Bad element '" + std::string((const char *) ptr->name) +
+                 "' in content section of http_rewrite filter");
+        }
     }
 }
 
-- 
2.43.0


From 1ea544750fa0e21546fcf7d8ebc68ef8ecfe1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:51 +0000
Subject: [PATCH 15/39] fix: record_transform refuses unknown elements

Anything but retrievalinfo was skipped silently.
---
 src/filter_record_transform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index 38db551..664d2b4 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -222,6 +222,8 @@ void yf::RecordTransform::Impl::configure(const xmlNode *xml_node,
             continue;
         if (0 == strcmp((const char *) retrieval_node->name, "retrievalinfo"))
             break;
+        throw mp::XMLError("RecordTransform filter config: bad element "
+                           + std::string((const char *) retrieval_node->name));
     }
 
 #if HAVE_USEMARCON
-- 
2.43.0


From 8f34296bc7ea2108d37da67d150332e949630675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:06 +0000
Subject: [PATCH 16/39] fix: load_balance refuses configuration elements

It takes none; whatever was given was ignored silently.
---
 src/filter_load_balance.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 05bc3d4..1373cd7 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -21,6 +21,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <metaproxy/filter.hpp>
 #include "filter_load_balance.hpp"
 #include <metaproxy/util.hpp>
+#include <metaproxy/xmlutil.hpp>
 
 
 #include <boost/thread/mutex.hpp>
@@ -118,6 +119,7 @@ yf::LoadBalance::Impl::~Impl()
 
 void yf::LoadBalance::Impl::configure(const xmlNode *xmlnode)
 {
+    mp::xml::check_empty(xmlnode);
 }
 
 void yf::LoadBalance::Impl::process(mp::Package &package)
-- 
2.43.0


From af68828d6af4f82206f1ee1de0ecbbe1a180bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 17/39] fix: the template filter refuses configuration elements

It takes none; whatever was given was ignored silently.
---
 src/filter_template.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_template.cpp b/src/filter_template.cpp
index 3b26044..a953ac8 100644
--- a/src/filter_template.cpp
+++ b/src/filter_template.cpp
@@ -20,6 +20,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include "filter_template.hpp"
 #include <metaproxy/package.hpp>
 #include <metaproxy/util.hpp>
+#include <metaproxy/xmlutil.hpp>
 
 #include <boost/scoped_ptr.hpp>
 #include <boost/thread/mutex.hpp>
@@ -55,6 +56,7 @@ yf::Template::~Template()
 void yf::Template::configure(const xmlNode *xmlnode, bool test_only,
                              const char *path)
 {
+    mp::xml::check_empty(xmlnode);
 }
 
 void yf::Template::process(mp::Package &package) const
-- 
2.43.0


From ed99775ba8c0ff687ca7cd140238f52120f83bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 18/39] fix: http_rewrite1: rewrite only responses that are
 HTTP responses

---
 src/filter_http_rewrite1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_http_rewrite1.cpp b/src/filter_http_rewrite1.cpp
index b1132cd..63e80e6 100644
--- a/src/filter_http_rewrite1.cpp
+++ b/src/filter_http_rewrite1.cpp
@@ -105,9 +105,9 @@ void yf::HttpRewrite1::process(mp::Package &package) const
         package.move();
 
         Z_GDU *gdu_res = package.response().get();
-        Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
-        if (hres)
+        if (gdu_res && gdu_res->which == Z_GDU_HTTP_Response)
         {
+            Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
             mp::odr o;
             m_p->rewrite_response(o, hres);
             package.response() = gdu_res;
-- 
2.43.0


From e21e9558ec853128dd118b1da4040f0f67f1be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 19/39] fix: log: sort request is taken from the request

---
 src/filter_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 27ebadb..7de6b2b 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -395,7 +395,7 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         else
         {
             Z_SortResponse *res = z_res->u.sortResponse;
-            Z_SortRequest *req = z_res->u.sortRequest;
+            Z_SortRequest *req = z_req->u.sortRequest;
             int i;
 
             if (*res->sortStatus == Z_SortResponse_success)
-- 
2.43.0


From 156f1d85c267d2ccd85cb32b90d94cae038d1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 20/39] fix: sru_z3950: XML record must be octet aligned

---
 src/filter_sru_to_z3950.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c1af6df..96fcab8 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -873,7 +873,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                 else if (npr->which == Z_NamePlusRecord_databaseRecord &&
                     npr->u.databaseRecord->direct_reference
                     && !oid_oidcmp(npr->u.databaseRecord->direct_reference,
-                                   yaz_oid_recsyn_xml))
+                                   yaz_oid_recsyn_xml)
+                    && npr->u.databaseRecord->which == Z_External_octet)
                 {
                     // got XML record back
                     Z_External *r = npr->u.databaseRecord;
-- 
2.43.0


From 3005e41d957732f1e83c703eaef5e2ec66f7acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 21/39] fix: multi: single diagnostic of another format is
 passed on as list

---
 src/filter_multi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 41c9aab..95c2a3e 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -705,7 +705,8 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         f_resp->records = (Z_Records *)
             odr_malloc(odr, sizeof(*f_resp->records));
-        if (z_diag->num_diagRecs > 1)
+        if (z_diag->num_diagRecs != 1
+            || z_diag->diagRecs[0]->which != Z_DiagRec_defaultFormat)
         {
             f_resp->records->which = Z_Records_multipleNSD;
             f_resp->records->u.multipleNonSurDiagnostics = z_diag;
@@ -884,7 +885,8 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
     {
         f_resp->records = (Z_Records *)
             odr_malloc(odr, sizeof(*f_resp->records));
-        if (z_diag->num_diagRecs > 1)
+        if (z_diag->num_diagRecs != 1
+            || z_diag->diagRecs[0]->which != Z_DiagRec_defaultFormat)
         {
             f_resp->records->which = Z_Records_multipleNSD;
             f_resp->records->u.multipleNonSurDiagnostics = z_diag;
-- 
2.43.0


From 09735dc0869ec773e9c6eff3f1789cb395ab4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 22/39] fix: multi: targets without present response contribute
 no records

---
 src/filter_multi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 95c2a3e..8e05ae3 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -925,6 +925,9 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
             PackagePtr p = jit->m_backend->m_package;
 
             Z_GDU *gdu = p->response().get();
+            if (!gdu || gdu->which != Z_GDU_Z3950
+                || gdu->u.z3950->which != Z_APDU_presentResponse)
+                continue;
             Z_APDU *b_apdu = gdu->u.z3950;
             int inside_pos = jit->m_pos - jit->m_start;
             Z_Records *records = b_apdu->u.presentResponse->records;
-- 
2.43.0


From bb128b333ef4e503f3d374f0e1bc5585010b10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:02 +0000
Subject: [PATCH 23/39] fix: multi: scan request without preferred position

---
 src/filter_multi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 8e05ae3..719031c 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1193,7 +1193,9 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         Z_ScanResponse *resp = f_apdu->u.scanResponse;
 
         int number_returned = *req->numberOfTermsRequested;
-        int position_returned = *req->preferredPositionInResponse;
+        int position_returned = 1;
+        if (req->preferredPositionInResponse)
+            position_returned = *req->preferredPositionInResponse;
 
         resp->entries->num_entries = number_returned;
         resp->entries->entries = (Z_Entry**)
-- 
2.43.0


From 86cfcb3063e3267efdbda47ca83a8fe4f70229b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:02 +0000
Subject: [PATCH 24/39] fix: zoom: configured request syntax that is unknown

---
 src/filter_zoom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 3a9c499..2f7ed18 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1690,8 +1690,9 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
             syntax_name = configured_request_syntax.c_str();
             const Odr_oid *syntax_oid =
                 yaz_string_to_oid(yaz_oid_std(), CLASS_RECSYN, syntax_name);
-            if (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
-                || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac))
+            if (syntax_oid
+                && (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
+                    || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac)))
                 assume_marc8_charset = true;
         }
     }
-- 
2.43.0


From 271b65c789c90787a463d22c2b5658d97ca128c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 25/39] fix: multi: preferred scan position beyond the number
 of terms requested

---
 src/filter_multi.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 719031c..9b58f75 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1197,6 +1197,11 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         if (req->preferredPositionInResponse)
             position_returned = *req->preferredPositionInResponse;
 
+        if (number_returned < 0)
+            number_returned = 0;
+        if (position_returned > number_returned + 1)
+            position_returned = number_returned + 1;
+
         resp->entries->num_entries = number_returned;
         resp->entries->entries = (Z_Entry**)
             odr_malloc(odr, sizeof(Z_Entry*) * number_returned);
-- 
2.43.0


From e12c705dc6ad113618c5024c927d9b33ff388bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 26/39] fix: zoom: target record with empty layer

---
 src/filter_zoom.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 2f7ed18..453395f 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -588,7 +588,11 @@ yf::Zoom::SearchablePtr yf::Zoom::Impl::parse_torus_record(const xmlNode *ptr)
         if (ptr->type != XML_ELEMENT_NODE)
             continue;
         if (!strcmp((const char *) ptr->name, "layer"))
+        {
+            if (!ptr->children)
+                break;
             ptr = ptr->children;
+        }
         else if (!strcmp((const char *) ptr->name,
                          "authentication"))
         {
-- 
2.43.0


From 3d374c46c4975097657f31ecc13278abcd822d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 27/39] fix: log: other request without response

---
 src/filter_log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 7de6b2b..fac7fe6 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -479,7 +479,9 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         }
         break;
     default:
-        wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        wrbuf_printf(w, "REQ=%d", z_req->which);
+        if (z_res)
+            wrbuf_printf(w, " RES=%d", z_res->which);
     }
 }
 
-- 
2.43.0


From 74955e87a1c80837094dc1189078afa64d76a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 28/39] fix: zeerex_explain: HTTP request that is not SRU

---
 src/filter_zeerex_explain.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/filter_zeerex_explain.cpp b/src/filter_zeerex_explain.cpp
index f82039d..7332075 100644
--- a/src/filter_zeerex_explain.cpp
+++ b/src/filter_zeerex_explain.cpp
@@ -159,10 +159,20 @@ void yf::ZeeRexExplain::Impl::process(mp::Package &package)
                &diagnostic, &num_diagnostic, &soap,
                charset)))
     {
-        mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
-                                   sruinfo, explainnode);
-        mp_util::build_sru_response(package, odr_en, soap,
-                           sru_pdu_res, charset, stylesheet);
+        if (soap)
+        {
+            mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
+                                       sruinfo, explainnode);
+            mp_util::build_sru_response(package, odr_en, soap,
+                                        sru_pdu_res, charset, stylesheet);
+        }
+        else
+        {
+            mp::odr odr;
+            package.response() =
+                odr.create_HTTP_Response(package.session(),
+                                         zgdu_req->u.HTTP_Request, 400);
+        }
         package.session().close();
         return;
     }
-- 
2.43.0


From 482f4b49a193fd7d158b76202ade99e6d3865403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 29/39] fix: multi: HTTP request inside a Z39.50 session was
 left without outcome

---
 src/filter_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 9b58f75..1830a30 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1293,6 +1293,8 @@ void yf::Multi::process(mp::Package &package) const
             package.session().close();
         }
     }
+    else if (gdu) // not Z39.50: cannot be answered by the targets
+        package.session().close();
     m_p->release_frontend(package);
 }
 
-- 
2.43.0


From 8c9dbaf44611ec620cfc82e0184364d0f4e448b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 30/39] fix: session_shared: HTTP request inside a Z39.50
 session was left without outcome

---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index c00c7eb..4fdbb95 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1560,6 +1560,8 @@ void yf::SessionShared::process(mp::Package &package) const
             package.session().close();
         }
     }
+    else if (gdu) // not Z39.50: nothing to hand it on to
+        package.session().close();
     m_p->release_frontend(package);
 }
 
-- 
2.43.0


From b41875946e1a94558a1983532b82fa69c66c2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 31/39] fix: virt_db: HTTP request inside a Z39.50 session was
 left without outcome

---
 src/filter_virt_db.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index 4bb81af..9e937dc 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -842,6 +842,8 @@ void yf::VirtualDB::process(mp::Package &package) const
             package.session().close();
         }
     }
+    else if (gdu) // not Z39.50: nothing to hand it on to
+        package.session().close();
     m_p->release_frontend(package);
 }
 
-- 
2.43.0


From a9e4ccdd3e0f53931a6670f74cca7a3907dc0096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 32/39] fix: z3950_client: HTTP request inside a Z39.50 session
 was left without outcome

---
 src/filter_z3950_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 630073e..45d2384 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -538,7 +538,11 @@ void yf::Z3950Client::Rep::send_and_receive(Package &package,
     Z_GDU *gdu = package.request().get();
 
     if (!gdu || gdu->which != Z_GDU_Z3950)
+    {
+        if (gdu) // not Z39.50: target can't handle it
+            package.session().close();
         return;
+    }
 
     if (gdu->u.z3950->which == Z_APDU_close)
         c->m_has_closed = true;
-- 
2.43.0


From db6d9c7f6ce2e02c50f3fa6c02d6ae6b7bc1d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 33/39] fix: html_parser reported attributes without value with
 undefined length and quote

---
 src/html_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 6fedc78..96a3b00 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -113,6 +113,8 @@ int mp::HTMLParser::Rep::skipAttribute(HTMLParserEvent &event,
     int i = skipName(cp);
     *attr_len = i;
     *value = NULL;
+    *val_len = 0;
+    *tr = 0;
     if (!i)
         return skipSpace(cp);
     i += skipSpace(cp + i);
-- 
2.43.0


From 6db2f97f09fbd4f559b67e20c3f281c8e0ecc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 34/39] fix: sort used an undefined hit count for a result set
 whose search failed

---
 src/filter_sort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 02ae667..0ef2df6 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -92,6 +92,7 @@ namespace metaproxy_1 {
         class Sort::ResultSet : boost::noncopyable {
             friend class Frontend;
             Odr_int hit_count;
+            ResultSet() : hit_count(0) {}
             std::list<RecordListPtr> record_lists;
         };
         class Sort::Frontend : boost::noncopyable {
-- 
2.43.0


From 6f6fdd2c4794c035cb76f9440ab8e85d278afa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:41 +0000
Subject: [PATCH 35/39] fix: frontend_net set an undefined receive limit for
 ports given with -p

---
 src/filter_frontend_net.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 96922ec..308725a 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -927,6 +927,7 @@ void yf::FrontendNet::set_ports(std::vector<std::string> &ports)
         Port nport;
 
         nport.port = ports[i];
+        nport.max_recv_bytes = 0;
 
         nports.push_back(nport);
     }
-- 
2.43.0


From 5e2ab348a5389ae08f235f04dfba629f68028f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 36/39] fix: present_chunk: combined present response lost the
 reference id of the request

---
 src/filter_present_chunk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b67290c..6a7a8a6 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -159,7 +159,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
     yaz_log(YLOG_LOG, "building response . %lld", offset);
 
-    Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
+    Z_APDU *a = odr.create_presentResponse(apdu, 0, 0);
     Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
-- 
2.43.0


From 57bb2476ba1086bde385e1768218f2c2a3c6dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 37/39] fix: sort: present response made from sorted records
 lost the reference id of the request

---
 src/filter_sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 0ef2df6..1568e77 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -656,7 +656,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
                 <= (*it)->size())
             {
                 int i;
-                Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentResponse);
+                Z_APDU *p_apdu = odr.create_presentResponse(apdu_req, 0, 0);
                 Z_PresentResponse *p_res = p_apdu->u.presentResponse;
 
                 *p_res->nextResultSetPosition = *req->resultSetStartPoint +
-- 
2.43.0


From c6bd792d328f2eabe030343e63de62da9b9ca0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 38/39] fix: reference id of duplicate detection requests was
 not carried over to answers

---
 src/util.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.cpp b/src/util.cpp
index de57265..6238472 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -698,6 +698,10 @@ Z_ReferenceId **mp_util::get_referenceId(const Z_APDU *apdu)
         return &apdu->u.extendedServicesResponse->referenceId;
     case  Z_APDU_close:
         return &apdu->u.close->referenceId;
+    case  Z_APDU_duplicateDetectionRequest:
+        return &apdu->u.duplicateDetectionRequest->referenceId;
+    case  Z_APDU_duplicateDetectionResponse:
+        return &apdu->u.duplicateDetectionResponse->referenceId;
     }
     return 0;
 }
-- 
2.43.0


From f8834fefa5fef074c2bb7bf39fcb3a3bebf59951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 39/39] fix: filter of a route with neither type nor refid was
 dropped silently

---
 src/router_flexml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index 54b65ba..2806b04 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -210,7 +210,9 @@ void mp::RouterFleXML::Rep::parse_xml_filters1(xmlDocPtr doc,
 
                 route.m_list.push_back(filter_base);
             }
-
+            else
+                throw mp::XMLError("Attribute 'refid' or 'type' required"
+                                   " for element 'filter' in route");
         }
         node = mp::xml::jump_to_next(node, XML_ELEMENT_NODE);
     }
-- 
2.43.0

