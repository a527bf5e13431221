From 6b28f26d340b00b376d556a813e207187b089005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 01/89] fix: session_map: exist() takes the lock like create()
 and release()

---
 include/metaproxy/session.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index 93951eb..cba8a9b 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -108,6 +108,8 @@ namespace metaproxy_1 {
         };
 #endif
         bool exist(const metaproxy_1::Session &s) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
+
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
             it = m_map.find(s);
             return it == m_map.end() ? false : true;
-- 
2.43.0


From 01626845986242d1669ccf70967524a7027df689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:29 +0000
Subject: [PATCH 02/89] fix: router_flexml: moving to an unknown route keeps
 the route position

The position's route iterator was left at end(), so the next move() along
the route dereferenced it.
---
 src/router_flexml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index dad380d..807a4a7 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -454,12 +454,14 @@ const mp::filter::Base *mp::RouterFleXML::Pos::move(const char *route)
 {
     if (route && *route)
     {
-        m_route_it = m_p->m_routes.find(route);
-        if (m_route_it == m_p->m_routes.end())
+        std::map<std::string,
+                 RouterFleXML::Route>::iterator it = m_p->m_routes.find(route);
+        if (it == m_p->m_routes.end())
         {
             yaz_log(YLOG_FATAL, "no such route %s", route);
             return 0;
         }
+        m_route_it = it;
         m_filter_it = m_route_it->second.m_list.begin();
     }
     if (m_filter_it == m_route_it->second.m_list.end())
-- 
2.43.0


From e8eceec29de4c7524f83f7279c5f3164f5b676d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:24 +0000
Subject: [PATCH 03/89] fix: html_parser: do not drop the content of an
 unterminated comment

---
 src/html_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 95db7c7..6fedc78 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -236,7 +236,6 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
                     if (cp[i] == '-' && cp[i+1] == '-' && cp[i+2] == '>')
                     {
                         i+= 2;
-                        event.openTagStart(cp, i);
                         break;
                     }
             }
@@ -244,8 +243,8 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
             {
                 for (i = 1; cp[i] && cp[i] != '>'; i++)
                     ;
-                event.openTagStart(cp, i);
             }
+            event.openTagStart(cp, i);
             if (m_verbose)
                 printf("------ dtd %.*s\n", i, cp);
             i += tagEnd(event, cp, i, cp + i);
-- 
2.43.0


From 550ef9b3315dc8f6ca3d01bebfea3dc82e5f2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:24 +0000
Subject: [PATCH 04/89] fix: html_parser: do not drop a slash in a tag that
 does not end it

<a/href="x"> was passed on as <ahref="x">.
---
 src/html_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 6fedc78..a069b19 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -190,7 +190,7 @@ int mp::HTMLParser::Rep::tagEnd(HTMLParserEvent &event,
             printf("------ text %.*s\n", i, cp);
         event.text(cp, i);
     }
-    if (cp[i] == '/')
+    if (cp[i] == '/' && cp[i + 1] == '>')
     {
         close_it = 1;
         i++;
-- 
2.43.0


From fd61e1d1421416913501f9bc4e9d0678e1da0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:22 +0000
Subject: [PATCH 05/89] fix: url_recipe: only the prefix md- is removed from a
 variable name

Any variable starting with m, d or - lost its first three characters, so
${date} was looked up as "e" and a short name was read out of bounds.
---
 src/url_recipe.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/url_recipe.cpp b/src/url_recipe.cpp
index 3386d8f..9db10cf 100644
--- a/src/url_recipe.cpp
+++ b/src/url_recipe.cpp
@@ -110,8 +110,7 @@ std::string mp_xml::url_recipe_handle(xmlDoc *doc, std::string recipe)
         {
             std::string text;
             size_t offset = 0;
-            size_t md_pos = variable.find_first_of("md-");
-            if (md_pos == 0)
+            if (variable.compare(0, 3, "md-") == 0)
                 offset = 3;
             const xmlNode *ptr = ptr1;
             for (; ptr; ptr = ptr->next)
-- 
2.43.0


From 523f4dab260903ca9a89fb4906e3321e218f9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:44 +0000
Subject: [PATCH 06/89] fix: thread_pool_observer: read the thread counters
 under their lock

---
 src/thread_pool_observer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/thread_pool_observer.cpp b/src/thread_pool_observer.cpp
index 7fdc43a..a129a88 100644
--- a/src/thread_pool_observer.cpp
+++ b/src/thread_pool_observer.cpp
@@ -183,14 +183,14 @@ void ThreadPoolSocketObserver::socketNotify(int event)
             if (out)
             {
                 size_t input_size = 0;
+                unsigned tbusy = 0;
                 std::ostringstream os;
                 {
                     boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
                     input_size = m_p->m_input.size();
+                    tbusy = m_p->m_no_threads - m_p->m_waiting_threads;
                 }
-                os << "tbusy/total "
-                    << m_p->m_no_threads - m_p->m_waiting_threads
-                    << "/" << m_p->m_no_threads
+                os << "tbusy/total " << tbusy << "/" << m_p->m_no_threads
                     << " queue in/out " << input_size << "/" <<  output_size;
                 out->result(os.str().c_str());
             }
@@ -200,6 +200,7 @@ void ThreadPoolSocketObserver::socketNotify(int event)
 
 void ThreadPoolSocketObserver::get_thread_info(int &tbusy, int &total)
 {
+    boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
     tbusy = m_p->m_no_threads - m_p->m_waiting_threads;
     total = m_p->m_no_threads;
 }
-- 
2.43.0


From e261a616672d23297986a5a00bcaf7ed06f6f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:07 +0000
Subject: [PATCH 07/89] fix: frontend_net: close a connection once its last
 request is done

A session whose close was processed while a request was still being handled
was never deleted and kept counting against connect-total; a session ended by
one of several outstanding requests stayed open; answering a statistics or
refused HTTP request deleted the session under its outstanding requests and
without telling the route that it closed.
---
 src/filter_frontend_net.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 96922ec..271827b 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -126,6 +126,7 @@ namespace metaproxy_1 {
                         yazpp_1::LimitConnect &limit,
                         const char *peername);
             int m_no_requests;
+            bool m_delete_flag; // close when no requests are outstanding
             Port *m_port;
         private:
             yazpp_1::IPDU_Observer* sessionNotify(
@@ -140,7 +141,6 @@ namespace metaproxy_1 {
             mp::ThreadPoolSocketObserver *m_thread_pool_observer;
             mp::Session m_session;
             mp::Origin m_origin;
-            bool m_delete_flag;
             const mp::Package *m_package;
             Rep *m_p;
             yazpp_1::LimitConnect &m_limit_http_req;
@@ -288,7 +288,10 @@ void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
         m_package->session().close();
     }
 
-    if (m_assoc_child->m_no_requests == 0 && m_package->session().is_closed())
+    if (m_package->session().is_closed())
+        m_assoc_child->m_delete_flag = true;
+
+    if (m_assoc_child->m_no_requests == 0 && m_assoc_child->m_delete_flag)
     {
         m_assoc_child->close();
     }
@@ -450,7 +453,10 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
         {
             report(hreq);
             delete p;
-            delete this;
+            m_no_requests--;
+            m_delete_flag = true;
+            if (m_no_requests == 0)
+                close();
             return;
         }
     }
@@ -492,7 +498,10 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
                 int len;
                 send_GDU(gdu_res, &len);
                 delete p;
-                delete this;
+                m_no_requests--;
+                m_delete_flag = true;
+                if (m_no_requests == 0)
+                    close();
                 return;
             }
         }
-- 
2.43.0


From fb28cf00f9817f0e2bf54dbca85c9cd64e7b6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:25 +0000
Subject: [PATCH 08/89] fix: z3950_client: drop a dead backend connection with
 its last request

When the package that closed the session was not the last one queued for
the backend, the connection was never destroyed.
---
 src/filter_z3950_client.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 627ed34..8c2f151 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -640,13 +640,13 @@ void yf::Z3950Client::Rep::release_assoc(Package &package)
         {
             // destroy hint (send_and_receive)
             it->second->m_destroyed = true;
-            if (it->second->m_queue_len == 0)
-            {
-                yazpp_1::SocketManager *s = it->second->m_socket_manager;
-                delete it->second;  // destroy Z_Assoc
-                delete s;    // then manager
-                m_clients.erase(it);
-            }
+        }
+        if (it->second->m_destroyed && it->second->m_queue_len == 0)
+        {
+            yazpp_1::SocketManager *s = it->second->m_socket_manager;
+            delete it->second;  // destroy Z_Assoc
+            delete s;    // then manager
+            m_clients.erase(it);
         }
         m_cond_session_ready.notify_all();
     }
-- 
2.43.0


From b509f1f06b1c66815b7d787719f5b3704b32986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 09/89] fix: session_shared: report a failed search as failed

searchStatus is a boolean: Z_SearchResponse_none (3) made a search that
the target rejected look successful. Likewise presentStatus was left as
success when the search behind a present was rejected.
---
 src/filter_session_shared.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 8b2e304..0a5b34f 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -988,7 +988,9 @@ restart:
                 Z_APDU *f_apdu = odr.create_searchResponse(apdu_req,
                                                            0, 0);
                 Z_SearchResponse *f_resp = f_apdu->u.searchResponse;
-                *f_resp->searchStatus = Z_SearchResponse_none;
+                *f_resp->searchStatus = 0;
+                f_resp->resultSetStatus =
+                    odr_intdup(odr, Z_SearchResponse_none);
                 f_resp->records = z_records;
                 package.response() = f_apdu;
             }
@@ -997,6 +999,7 @@ restart:
                 Z_APDU *f_apdu = odr.create_presentResponse(apdu_req,
                                                             0, 0);
                 Z_PresentResponse *f_resp = f_apdu->u.presentResponse;
+                *f_resp->presentStatus = Z_PresentStatus_failure;
                 f_resp->records = z_records;
                 package.response() = f_apdu;
             }
-- 
2.43.0


From 4b0ad95f5225fab612c25dd71d7b190ddc58f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 10/89] fix: session_shared: wake up waiters when a backend is
 removed

A session waiting for a result set of a backend in use was never told
when that backend was removed (connection lost, restart) and hung.
---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 0a5b34f..1ad1946 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -327,6 +327,8 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
             }
             it++;
         }
+        // wake up those waiting for a result set of it
+        m_cond_set_ready.notify_all();
     }
     mp::odr odr;
     b->m_close_package->response() = odr.create_close(
-- 
2.43.0


From c05dbf419dac30cb42a3237009a322de36cac4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:58 +0000
Subject: [PATCH 11/89] fix: session_shared: access shared lists under their
 lock

The list of result sets of a backend was extended, and the list of
backends counted, without the lock under which other threads read them.
---
 src/filter_session_shared.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 1ad1946..43ec487 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -553,6 +553,7 @@ void yf::SessionShared::Rep::stat()
         {
             BackendClassPtr bc = it->second;
             no_classes++;
+            boost::mutex::scoped_lock lock_class(bc->m_mutex_backend_class);
             BackendInstanceList::iterator bit = bc->m_backend_list.begin();
             for (; bit != bc->m_backend_list.end(); bit++)
                 no_instances++;
@@ -1018,6 +1019,7 @@ restart:
         found_backend.reset();
         goto restart;
     }
+    boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
     found_backend->m_sets.push_back(found_set);
 }
 
@@ -1330,15 +1332,15 @@ bool yf::SessionShared::BackendClass::expire_instances()
     BackendInstanceList::iterator bit = m_backend_list.begin();
     while (bit != m_backend_list.end())
     {
-        time_t last_use = (*bit)->m_time_last_use;
-
         if ((*bit)->m_in_use)
         {
             yaz_log(YLOG_LOG, "session_shared id=%ld in_use",
                     (*bit)->m_session.id());
             bit++;
+            continue;
         }
-        else if (now < last_use || now - last_use > m_backend_expiry_ttl)
+        time_t last_use = (*bit)->m_time_last_use;
+        if (now < last_use || now - last_use > m_backend_expiry_ttl)
         {
             yaz_log(YLOG_LOG, "session_shared id=%ld erase",
                     (*bit)->m_session.id());
-- 
2.43.0


From 5711655ef05254ca7fc217041a396e63e698a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:58 +0000
Subject: [PATCH 12/89] fix: session_shared: keep a class of backends as long
 as it is used

A class without backends was dropped although sessions were using it.
Backends they created in it later were never expired.
---
 src/filter_session_shared.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 43ec487..70ceba3 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1364,7 +1364,8 @@ void yf::SessionShared::Rep::expire_classes()
     BackendClassMap::iterator b_it = m_backend_map.begin();
     while (b_it != m_backend_map.end())
     {
-        if (b_it->second->expire_instances())
+        // sessions that still refer to the class may create backends in it
+        if (b_it->second->expire_instances() && b_it->second.unique())
         {
             m_backend_map.erase(b_it);
             b_it = m_backend_map.begin();
-- 
2.43.0


From 40ca30bb3c46322f2abf5154bad7e02b93d8d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:16 +0000
Subject: [PATCH 13/89] fix: session_shared: never exceed the maximum number of
 sessions

Sessions being created were not counted, so that concurrent requests,
scans and first Inits could create more backends than configured.
---
 src/filter_session_shared.cpp | 41 +++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 70ceba3..f8b689e 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -124,7 +124,9 @@ namespace metaproxy_1 {
                                               int &code, std::string &addinfo);
             void remove_backend(BackendInstancePtr b);
             BackendInstancePtr get_backend(const Package &package,
+                                           int session_max,
                                            int &code, std::string &addinfo);
+            bool reserve_backend(int session_max);
             void use_backend(BackendInstancePtr b);
             void release_backend(BackendInstancePtr b);
             bool expire_instances();
@@ -141,6 +143,7 @@ namespace metaproxy_1 {
             int m_no_failed;
             int m_no_succeeded;
             int m_no_init;
+            int m_no_pending; // backends being created
         public:
             BackendClass(const yazpp_1::GDU &init_request,
                          int resultset_ttl,
@@ -338,9 +341,19 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
 }
 
 
+// make room for a backend; the lock is held and create_backend follows
+bool yf::SessionShared::BackendClass::reserve_backend(int session_max)
+{
+    if ((int) m_backend_list.size() + m_no_pending >= session_max)
+        return false;
+    m_no_pending++;
+    return true;
+}
+
 yf::SessionShared::BackendInstancePtr
 yf::SessionShared::BackendClass::get_backend(
     const mp::Package &frontend_package,
+    int session_max,
     int &code, std::string &addinfo)
 {
     {
@@ -364,6 +377,12 @@ yf::SessionShared::BackendClass::get_backend(
             use_backend(backend1);
             return backend1;
         }
+        if (!reserve_backend(session_max))
+        {
+            code = YAZ_BIB1_TEMPORARY_SYSTEM_ERROR;
+            addinfo = "session_shared: all sessions in use";
+            return backend1;
+        }
     }
     return create_backend(frontend_package, code, addinfo);
 }
@@ -441,6 +460,7 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
 
     boost::mutex::scoped_lock lock(m_mutex_backend_class);
 
+    m_no_pending--;
     addinfo.clear();
     code = 0;
     m_named_result_sets = false;
@@ -536,7 +556,8 @@ yf::SessionShared::BackendClass::BackendClass(const yazpp_1::GDU &init_request,
       m_backend_expiry_ttl(session_ttl), m_backend_set_max(resultset_max),
       m_preferredMessageSize(preferredMessageSize),
       m_maximumRecordSize(maximumRecordSize),
-      m_no_failed(0), m_no_succeeded(0), m_no_init(0)
+      m_no_failed(0), m_no_succeeded(0), m_no_init(0),
+      m_no_pending(0)
 {}
 
 yf::SessionShared::BackendClass::~BackendClass()
@@ -600,15 +621,13 @@ void yf::SessionShared::Rep::init(mp::Package &package, const Z_GDU *gdu,
     bool create_first_one = false;
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
+        // wait for first one to finish
+        while (!bc->m_no_succeeded && bc->m_no_pending)
+            bc->m_cond_set_ready.wait(lock);
         if (!bc->m_no_succeeded)
-            create_first_one = true;
-        else
         {
-            // wait for first one to finish
-            while (!bc->m_no_failed && !bc->m_no_succeeded && bc->m_no_init)
-            {
-                bc->m_cond_set_ready.wait(lock);
-            }
+            create_first_one = true;
+            bc->m_no_pending++;
         }
     }
     if (create_first_one)
@@ -829,7 +848,8 @@ restart:
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
 
-        if ((int) bc->m_backend_list.size() >= m_p->m_session_max)
+        if ((int) bc->m_backend_list.size() + bc->m_no_pending
+            >= m_p->m_session_max)
             out_of_sessions = true;
 
         if (m_p->m_optimize_search)
@@ -876,6 +896,8 @@ restart:
         override_set(found_backend, result_set_id, databases, out_of_sessions);
         if (found_backend)
             bc->use_backend(found_backend);
+        else if (!bc->reserve_backend(m_p->m_session_max))
+            out_of_sessions = true;
     }
     if (!found_backend)
     {
@@ -1285,6 +1307,7 @@ void yf::SessionShared::Frontend::scan(mp::Package &frontend_package,
     int code;
     std::string addinfo;
     BackendInstancePtr backend = bc->get_backend(frontend_package,
+                                                 m_p->m_session_max,
                                                  code, addinfo);
     if (!backend)
     {
-- 
2.43.0


From 4c326f5e515f4146e2343bf23aaa99cf2024f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:55 +0000
Subject: [PATCH 14/89] fix: filter_multi: present with a start position below
 1 is out of range

---
 src/filter_multi.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5c581e5..3a87490 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -781,6 +781,14 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
     int start = *req->resultSetStartPoint;
     int number = *req->numberOfRecordsRequested;
 
+    if (start < 1)
+    {
+        mp::odr odr;
+        package.response() = odr.create_presentResponse(
+            apdu_req, YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, 0);
+        return;
+    }
+
     if (m_p->m_merge_type == round_robin)
         it->second.round_robin(start, number, jobs);
     else if (m_p->m_merge_type == serve_order)
-- 
2.43.0


From f3fa303c66f77243a0ebbfadea42397d23ca1775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:08 +0000
Subject: [PATCH 15/89] fix: filter_multi: round robin skips the right number
 of records with three or more result counts

---
 src/filter_multi.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 3a87490..b65cbb3 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -325,17 +325,18 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
         }
         if (no_left == 0) // if nothing greater than omin, bail out.
             break;
-        int skip = no_left * min;
+        int step = min - omin; // positions omin+1 .. min of each set
+        int skip = no_left * step;
         if (p + skip > start)  // step gets us "into" present range?
         {
             // Yes. skip until start.. Rounding off is deliberate!
-            min = (start-p) / no_left;
-            p += no_left * min;
+            step = (start-p) / no_left;
+            p += no_left * step;
 
             // update positions in each set..
             std::list<int>::iterator psit = pos.begin();
             for (psit = pos.begin(); psit != pos.end(); psit++)
-                *psit += min;
+                *psit += step;
             break;
         }
         // skip on each set.. before "present range"..
@@ -343,7 +344,7 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
 
         std::list<int>::iterator psit = pos.begin();
         for (psit = pos.begin(); psit != pos.end(); psit++)
-            *psit += min;
+            *psit += step;
 
         omin = min; // update so we consider next class (with higher count)
     }
-- 
2.43.0


From 4bcb6e068548c4a0090d4598f31c213e9ac6c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:53 +0000
Subject: [PATCH 16/89] fix: filter_multi: lists of none or of external
 diagnostics are passed on as they are

---
 src/filter_multi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index b65cbb3..2f2c8bd 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -702,7 +702,8 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         f_resp->records = (Z_Records *)
             odr_malloc(odr, sizeof(*f_resp->records));
-        if (z_diag->num_diagRecs > 1)
+        if (z_diag->num_diagRecs != 1
+            || z_diag->diagRecs[0]->which != Z_DiagRec_defaultFormat)
         {
             f_resp->records->which = Z_Records_multipleNSD;
             f_resp->records->u.multipleNonSurDiagnostics = z_diag;
@@ -889,7 +890,8 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
     {
         f_resp->records = (Z_Records *)
             odr_malloc(odr, sizeof(*f_resp->records));
-        if (z_diag->num_diagRecs > 1)
+        if (z_diag->num_diagRecs != 1
+            || z_diag->diagRecs[0]->which != Z_DiagRec_defaultFormat)
         {
             f_resp->records->which = Z_Records_multipleNSD;
             f_resp->records->u.multipleNonSurDiagnostics = z_diag;
-- 
2.43.0


From d25f1785b286d6ae3114439894e18d46d7f3fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:10 +0000
Subject: [PATCH 17/89] fix: filter_multi: no records are taken from a target
 without present response

---
 src/filter_multi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 2f2c8bd..88836f9 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -930,6 +930,9 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
             PackagePtr p = jit->m_backend->m_package;
 
             Z_GDU *gdu = p->response().get();
+            if (!gdu || gdu->which != Z_GDU_Z3950 ||
+                gdu->u.z3950->which != Z_APDU_presentResponse)
+                continue; // target without present response is hidden
             Z_APDU *b_apdu = gdu->u.z3950;
             int inside_pos = jit->m_pos - jit->m_start;
             Z_Records *records = b_apdu->u.presentResponse->records;
-- 
2.43.0


From c9d661af259441c1b75ca0b3110e7ff8817cf8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:49 +0000
Subject: [PATCH 18/89] fix: filter_multi: a target which refuses the session
 is released and has no say in the options

---
 src/filter_multi.cpp | 62 +++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 88836f9..2d7628d 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -103,6 +103,7 @@ namespace metaproxy_1 {
             void multi_move(std::list<BackendPtr> &blist);
             void init(Package &package, Z_GDU *gdu);
             void close(Package &package);
+            void close(Package &package, std::list<BackendPtr> &blist);
             void search(Package &package, Z_APDU *apdu);
             void present(Package &package, Z_APDU *apdu);
             void scan(Package &package, Z_APDU *apdu);
@@ -248,9 +249,15 @@ void yf::Multi::Backend::operator() (void)
 
 
 void yf::Multi::Frontend::close(mp::Package &package)
+{
+    close(package, m_backend_list);
+}
+
+void yf::Multi::Frontend::close(mp::Package &package,
+                                std::list<BackendPtr> &blist)
 {
     std::list<BackendPtr>::const_iterator bit;
-    for (bit = m_backend_list.begin(); bit != m_backend_list.end(); bit++)
+    for (bit = blist.begin(); bit != blist.end(); bit++)
     {
         BackendPtr b = *bit;
 
@@ -488,54 +495,48 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
 
     Odr_int preferredMessageSize = *req->preferredMessageSize;
     Odr_int maximumRecordSize = *req->maximumRecordSize;
+    std::list<BackendPtr> failed_list; // not used any further
     for (bit = m_backend_list.begin(); bit != m_backend_list.end(); )
     {
         PackagePtr p = (*bit)->m_package;
-
-        if (p->session().is_closed())
-        {
-            // failed. Remove from list and increment number of failed
-            no_failed++;
-            bit = m_backend_list.erase(bit);
-            continue;
-        }
         Z_GDU *gdu = p->response().get();
-        if (gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which ==
+
+        if (!p->session().is_closed()
+            && gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which ==
             Z_APDU_initResponse)
         {
             int i;
             Z_APDU *b_apdu = gdu->u.z3950;
             Z_InitResponse *b_resp = b_apdu->u.initResponse;
 
-            // common options for all backends
-            for (i = 0; i <= Z_Options_stringSchema; i++)
-            {
-                if (!ODR_MASK_GET(b_resp->options, i))
-                    ODR_MASK_CLEAR(f_resp->options, i);
-            }
-            // common protocol version
-            for (i = 0; i <= Z_ProtocolVersion_3; i++)
-                if (!ODR_MASK_GET(b_resp->protocolVersion, i))
-                    ODR_MASK_CLEAR(f_resp->protocolVersion, i);
             if (*b_resp->result)
             {
+                // common options for all backends
+                for (i = 0; i <= Z_Options_stringSchema; i++)
+                {
+                    if (!ODR_MASK_GET(b_resp->options, i))
+                        ODR_MASK_CLEAR(f_resp->options, i);
+                }
+                // common protocol version
+                for (i = 0; i <= Z_ProtocolVersion_3; i++)
+                    if (!ODR_MASK_GET(b_resp->protocolVersion, i))
+                        ODR_MASK_CLEAR(f_resp->protocolVersion, i);
                 no_succeeded++;
                 if (preferredMessageSize > *b_resp->preferredMessageSize)
                     preferredMessageSize = *b_resp->preferredMessageSize;
                 if (maximumRecordSize > *b_resp->maximumRecordSize)
                     maximumRecordSize = *b_resp->maximumRecordSize;
+                bit++;
+                continue;
             }
-            else
-            {
-                if (!f_resp->userInformationField
-                    && b_resp->userInformationField)
-                    f_resp->userInformationField = b_resp->userInformationField;
-                no_failed++;
-            }
+            if (!f_resp->userInformationField
+                && b_resp->userInformationField)
+                f_resp->userInformationField = b_resp->userInformationField;
         }
-        else
-            no_failed++;
-        bit++;
+        // failed. Remove from list and increment number of failed
+        no_failed++;
+        failed_list.push_back(*bit);
+        bit = m_backend_list.erase(bit);
     }
     *f_resp->preferredMessageSize = preferredMessageSize;
     *f_resp->maximumRecordSize = maximumRecordSize;
@@ -557,6 +558,7 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
         }
     }
     package.response() = f_apdu;
+    close(package, failed_list);
 }
 
 void yf::Multi::Frontend::record_diagnostics(Z_Records *records, 
-- 
2.43.0


From 2fd3308bbf4ab604d31387acb085944996723282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:04 +0000
Subject: [PATCH 19/89] fix: filter_multi: the answer to an earlier request is
 not taken for the answer to this one

---
 src/filter_multi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 2d7628d..fa0958e 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -244,6 +244,7 @@ yf::Multi::~Multi() {
 
 void yf::Multi::Backend::operator() (void)
 {
+    m_package->response() = (Z_GDU *) 0; // no answer of earlier request
     m_package->move(m_route);
 }
 
-- 
2.43.0


From f48b012370c5eb05baa5f13dc8a53128cb3ccbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:21 +0000
Subject: [PATCH 20/89] fix: filter_multi: result set survives a search which
 may not replace it

---
 src/filter_multi.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index fa0958e..f3f7952 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -718,8 +718,9 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
                 z_diag->diagRecs[0]->u.defaultFormat;
         }
     }
-    // assume OK
-    m_sets[resultSet.m_setname] = resultSet;
+    // assume OK, but keep set if targets refused to replace it
+    if (no_successful || *req->replaceIndicator)
+        m_sets[resultSet.m_setname] = resultSet;
 
     Odr_int number;
     mp::util::piggyback(*req->smallSetUpperBound,
-- 
2.43.0


From 707e27b3f64c4308d47aefed1b83fe3cdc13fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:21 +0000
Subject: [PATCH 21/89] fix: filter_multi: scan without position, or with one
 beyond the number of terms

---
 src/filter_multi.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index f3f7952..291952f 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1202,7 +1202,13 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         Z_ScanResponse *resp = f_apdu->u.scanResponse;
 
         int number_returned = *req->numberOfTermsRequested;
-        int position_returned = *req->preferredPositionInResponse;
+        int position_returned = 1;
+        if (req->preferredPositionInResponse)
+            position_returned = *req->preferredPositionInResponse;
+        if (number_returned < 0)
+            number_returned = 0;
+        if (position_returned > number_returned + 1)
+            position_returned = number_returned + 1;
 
         resp->entries->num_entries = number_returned;
         resp->entries->entries = (Z_Entry**)
-- 
2.43.0


From eeb18978bc5b0900055db93e1d7c7dc5c95e8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:32 +0000
Subject: [PATCH 22/89] fix: filter_virt_db: search does not overwrite another
 result set of a target without named result sets

---
 src/filter_virt_db.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index de7f09a..c6c8ab9 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -81,6 +81,7 @@ namespace metaproxy_1 {
             void present(Package &package, Z_APDU *apdu);
             void scan(Package &package, Z_APDU *apdu);
             int relay_apdu(Package &package, Z_APDU *apdu);
+            bool in_use(BackendPtr b, const std::string &setname);
 
             void close(Package &package);
             typedef std::map<std::string,VirtualDB::Set>::iterator Sets_it;
@@ -301,7 +302,8 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         BackendPtr tmp = *map_it;
         if (mp::util::match(tmp->m_frontend_databases, databases) &&
-            (tmp->m_named_result_sets || override_set))
+            (tmp->m_named_result_sets ||
+             (override_set && !in_use(tmp, req->resultSetName))))
         {
             b = *map_it;
             break;
@@ -397,6 +399,16 @@ void yf::VirtualDB::Frontend::close(mp::Package &package)
     m_backend_list.clear();
 }
 
+// whether backend holds a result set other than setname
+bool yf::VirtualDB::Frontend::in_use(BackendPtr b, const std::string &setname)
+{
+    Sets_it it = m_sets.begin();
+    for (; it != m_sets.end(); it++)
+        if (it->second.m_backend == b && it->first != setname)
+            return true;
+    return false;
+}
+
 yf::VirtualDB::Frontend::~Frontend()
 {
 }
-- 
2.43.0


From 8f2d7bc36dace80a3f5d26441af70fb7f1670c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 23/89] fix: filter_load_balance: keep the statistics of a
 target with other sessions when one ends

---
 src/filter_load_balance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 05bc3d4..c61bd67 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -398,7 +398,7 @@ void yf::LoadBalance::Impl::remove_session(mp::Package &package)
     if (itarg->second.sessions > 0)
         itarg->second.sessions -= 1;
 
-    if (itarg->second.sessions == 0 || itarg->second.deads == 0)
+    if (itarg->second.cost() == 0)
         m_target_stat.erase(itarg);
 }
 
-- 
2.43.0


From 9cf164aebf2ac6d1625490b55eea1eef78415f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:46 +0000
Subject: [PATCH 24/89] fix: filter_load_balance: a request counts as in
 progress exactly until it returns

---
 src/filter_load_balance.cpp | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index c61bd67..3de7e65 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -56,8 +56,8 @@ namespace metaproxy_1
             // statistic manipulating functions,
             void add_dead(unsigned long session_id);
             //void clear_dead(unsigned long session_id);
-            void add_package(unsigned long session_id);
-            void remove_package(unsigned long session_id);
+            void add_package(const std::string &target);
+            void remove_package(const std::string &target);
             void add_session(metaproxy_1::Package &pkg, std::string target);
             void remove_session(metaproxy_1::Package &pkg);
             std::string find_session_target(unsigned long session_id);
@@ -123,6 +123,7 @@ void yf::LoadBalance::Impl::configure(const xmlNode *xmlnode)
 void yf::LoadBalance::Impl::process(mp::Package &package)
 {
     bool is_closed_front = false;
+    std::string package_target; // target with request in progress
 
     // checking for closed front end packages
     if (package.session().is_closed())
@@ -228,19 +229,27 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
         {
             is_closed_front = true;
             boost::mutex::scoped_lock scoped_lock(m_mutex);
-            add_package(package.session().id());
+            package_target = find_session_target(package.session().id());
+            add_package(package_target);
         }
         // any other Z39.50 package is added to statistics
         else
         {
             boost::mutex::scoped_lock scoped_lock(m_mutex);
-            add_package(package.session().id());
+            package_target = find_session_target(package.session().id());
+            add_package(package_target);
         }
     }
 
     // moving all package types
     package.move();
 
+    // the request is no longer in progress, whatever became of it
+    {
+        boost::mutex::scoped_lock scoped_lock(m_mutex);
+        remove_package(package_target);
+    }
+
     bool is_closed_back = false;
 
     // checking for closed back end packages
@@ -254,17 +263,7 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
     {
         // session closing only on Z39.50 close response
         if (gdu_res->u.z3950->which == Z_APDU_close)
-        {
             is_closed_back = true;
-            boost::mutex::scoped_lock scoped_lock(m_mutex);
-            remove_package(package.session().id());
-        }
-        // any other Z39.50 package is removed from statistics
-        else
-        {
-            boost::mutex::scoped_lock scoped_lock(m_mutex);
-            remove_package(package.session().id());
-        }
     }
 
     // finally removing sessions and marking deads
@@ -302,10 +301,8 @@ void yf::LoadBalance::Impl::add_dead(unsigned long session_id)
     }
 }
 
-void yf::LoadBalance::Impl::add_package(unsigned long session_id)
+void yf::LoadBalance::Impl::add_package(const std::string &target)
 {
-    std::string target = find_session_target(session_id);
-
     if (target.size() != 0)
     {
         std::map<std::string, TargetStat>::iterator itarg;
@@ -319,10 +316,8 @@ void yf::LoadBalance::Impl::add_package(unsigned long session_id)
     }
 }
 
-void yf::LoadBalance::Impl::remove_package(unsigned long session_id)
+void yf::LoadBalance::Impl::remove_package(const std::string &target)
 {
-    std::string target = find_session_target(session_id);
-
     if (target.size() != 0)
     {
         std::map<std::string, TargetStat>::iterator itarg;
-- 
2.43.0


From d23f0bf3fde2846a97b4cce8843e56ebb213eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:01 +0000
Subject: [PATCH 25/89] fix: filter_limit: searches of more than a minute ago
 do not delay other requests

---
 src/filter_limit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_limit.cpp b/src/filter_limit.cpp
index c71d2ae..ed37864 100644
--- a/src/filter_limit.cpp
+++ b/src/filter_limit.cpp
@@ -151,8 +151,9 @@ void yf::Limit::Impl::process(mp::Package &package)
             sz += package.request().get_size();
             // we're getting a Z39.50 package
             Z_APDU *apdu = gdu->u.z3950;
-            if (apdu->which == Z_APDU_searchRequest)
-                ses->search_stat.add_bytes(1);
+            // adding 0 makes searches of more than a minute ago expire
+            ses->search_stat.add_bytes(
+                apdu->which == Z_APDU_searchRequest ? 1 : 0);
             if (m_max_record_retrieve)
             {
                 if (apdu->which == Z_APDU_presentRequest)
-- 
2.43.0


From c5dcc0c8b7280f807b60c827d99f0555cbf45bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 26/89] fix: filter_auth_simple: target register is used for
 sessions with user register too

---
 src/filter_auth_simple.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 2948e33..6d3fca8 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -289,6 +289,8 @@ void yf::AuthSimple::process_init(mp::Package &package) const
                 boost::mutex::scoped_lock lock(m_p->mutex);
                 m_p->userBySession[package.session()] = user;
             }
+            if (m_p->got_targetRegister)
+                return check_targets(package);
             return package.move();
         }
     }
-- 
2.43.0


From 4b289510da2dca33a7ff51d1be3698b1c529d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 27/89] fix: filter_auth_simple: access to shared maps is
 synchronized

---
 src/filter_auth_simple.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 6d3fca8..30abd79 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -316,12 +316,19 @@ void yf::AuthSimple::process_search(mp::Package &package) const
     Z_SearchRequest *req =
         package.request().get()->u.z3950->u.searchRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end())
+            user = it->second;
+    }
+    if (user.length() == 0) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -348,12 +355,19 @@ void yf::AuthSimple::process_scan(mp::Package &package) const
     Z_ScanRequest *req =
         package.request().get()->u.z3950->u.scanRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end())
+            user = it->second;
+    }
+    if (user.length() == 0) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -393,7 +407,11 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
 
     std::string password;
     std::string user = get_user(initReq, password);
-    std::list<std::string> authorisedTargets = m_p->targetsByUser[user];
+    std::list<std::string> authorisedTargets;
+    std::map<std::string, std::list<std::string> >::const_iterator it =
+        m_p->targetsByUser.find(user);
+    if (it != m_p->targetsByUser.end())
+        authorisedTargets = it->second;
 
     std::list<std::string> targets;
     Z_OtherInformation **otherInfo = &initReq->otherInfo;
-- 
2.43.0


From 95ecf1203d70e072ed2959816c85972d3ffbe837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 28/89] fix: filter_auth_simple: sessions that ended are
 forgotten

---
 src/filter_auth_simple.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 30abd79..a769800 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -233,6 +233,11 @@ void yf::AuthSimple::process(mp::Package &package) const
 {
     Z_GDU *gdu = package.request().get();
 
+    if (package.session().is_closed()) {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        m_p->userBySession.erase(package.session());
+    }
+
     if (!gdu || gdu->which != Z_GDU_Z3950) {
         // Pass on the package -- This means that authentication is
         // waived, which may not be the correct thing for non-Z APDUs
-- 
2.43.0


From 1f07d5a6fa770b894cbacb9cb33aa3b66e41209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 29/89] fix: filter_auth_simple: no endless loop for long lines
 of a register

---
 src/filter_auth_simple.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index a769800..e7c93d2 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -162,8 +162,9 @@ void mp::filter::AuthSimple::config_userRegister(std::string filename,
 
     while (!fp.eof())
     {
-        char buf[1000];
-        fp.getline(buf, sizeof buf);
+        std::string line;
+        std::getline(fp, line);
+        char *buf = &line[0];
         if (*buf == '\0' || *buf == '#')
             continue;
         char *passwdp = strchr(buf, ':');
@@ -205,8 +206,9 @@ void mp::filter::AuthSimple::config_targetRegister(std::string filename,
         die("Could not open " + filename);
 
     while (!fp.eof()) {
-        char buf[1000];
-        fp.getline(buf, sizeof buf);
+        std::string line;
+        std::getline(fp, line);
+        char *buf = &line[0];
         if (*buf == '\0' || *buf == '#')
             continue;
         char *targetsp = strchr(buf, ':');
-- 
2.43.0


From e1d73b273697e6829833613e209c1d4682fef34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:46 +0000
Subject: [PATCH 30/89] fix: filter_present_chunk: target returning no records
 or more than asked for

---
 src/filter_present_chunk.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b67290c..b5f268f 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -136,13 +136,19 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                 Z_NamePlusRecordList *nprl =
                     pres->records->u.databaseOrSurDiagnostics;
                 int i;
-                for (i = 0; i < nprl->num_records; i++)
+                if (nprl->num_records == 0)
+                {
+                    if (offset > 0)
+                        break;
+                    package.response() = pp.response();
+                    return;
+                }
+                for (i = 0; i < nprl->num_records && offset < total; i++)
                 {
                     ODR o = odr;
-                    npl->records[offset+i] = yaz_clone_z_NamePlusRecord(
+                    npl->records[offset++] = yaz_clone_z_NamePlusRecord(
                         nprl->records[i], o->mem);
                 }
-                offset += nprl->num_records;
             }
             else
             {
-- 
2.43.0


From 60bc643873ac10b2aa9c108f3fc24297a30f6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:46 +0000
Subject: [PATCH 31/89] fix: filter_present_chunk: pass on Close of target

---
 src/filter_present_chunk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b5f268f..2a8c1f1 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -121,6 +121,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
         if (pp.session().is_closed())
         {
+            package.response() = pp.response();
             package.session().close();
             return;
         }
-- 
2.43.0


From eca9669af77db6b484431220c430d13c3f2a0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:46 +0000
Subject: [PATCH 32/89] fix: filter_present_chunk: reference ID, status and
 next position of answer

---
 src/filter_present_chunk.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index 2a8c1f1..f1a3168 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -98,6 +98,8 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     Odr_int total = *pr->numberOfRecordsRequested;
     Odr_int start = *pr->resultSetStartPoint;
     Odr_int offset = 0;
+    Odr_int next_position = 0;
+    Odr_int present_status = Z_PresentStatus_success;
     Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
         odr_malloc(odr, sizeof(*npl));
     npl->num_records = total;
@@ -144,6 +146,8 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                     package.response() = pp.response();
                     return;
                 }
+                next_position = *pres->nextResultSetPosition;
+                present_status = *pres->presentStatus;
                 for (i = 0; i < nprl->num_records && offset < total; i++)
                 {
                     ODR o = odr;
@@ -166,7 +170,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
     yaz_log(YLOG_LOG, "building response . %lld", offset);
 
-    Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
+    Z_APDU *a = odr.create_APDU(Z_APDU_presentResponse, apdu);
     Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
@@ -174,6 +178,10 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     pres->records->u.databaseOrSurDiagnostics = npl;
     npl->num_records = offset;
     *pres->numberOfRecordsReturned = offset;
+    *pres->nextResultSetPosition = offset < total || next_position == 0 ?
+        next_position : start + offset;
+    if (offset < total)
+        *pres->presentStatus = present_status;
 
     package.response() = a;
 }
-- 
2.43.0


From 468db6a27e813a82e14d60bbfc2efa93c0aafbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:46 +0000
Subject: [PATCH 33/89] fix: filter_present_chunk: no memory is allocated for
 records before they arrive

---
 src/filter_present_chunk.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index f1a3168..3ae6f4b 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -19,6 +19,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include "config.hpp"
 #include "filter_present_chunk.hpp"
 
+#include <algorithm>
+#include <vector>
 #include <time.h>
 #include <yaz/log.h>
 #include <yaz/copy_types.h>
@@ -102,9 +104,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     Odr_int present_status = Z_PresentStatus_success;
     Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
         odr_malloc(odr, sizeof(*npl));
-    npl->num_records = total;
-    npl->records = (Z_NamePlusRecord **)
-        odr_malloc(odr, sizeof(*npl->records) * total);
+    std::vector<Z_NamePlusRecord *> records;
     while (offset < total)
     {
         Odr_int left = total - offset;
@@ -151,8 +151,9 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                 for (i = 0; i < nprl->num_records && offset < total; i++)
                 {
                     ODR o = odr;
-                    npl->records[offset++] = yaz_clone_z_NamePlusRecord(
-                        nprl->records[i], o->mem);
+                    records.push_back(yaz_clone_z_NamePlusRecord(
+                        nprl->records[i], o->mem));
+                    offset++;
                 }
             }
             else
@@ -177,6 +178,9 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     pres->records->which = Z_Records_DBOSD;
     pres->records->u.databaseOrSurDiagnostics = npl;
     npl->num_records = offset;
+    npl->records = (Z_NamePlusRecord **)
+        odr_malloc(odr, sizeof(*npl->records) * (offset + 1));
+    std::copy(records.begin(), records.end(), npl->records);
     *pres->numberOfRecordsReturned = offset;
     *pres->nextResultSetPosition = offset < total || next_position == 0 ?
         next_position : start + offset;
@@ -192,7 +196,8 @@ void yf::PresentChunk::Impl::process(mp::Package &package)
     if (gdu && gdu->which == Z_GDU_Z3950)
     {
         Z_APDU *apdu = gdu->u.z3950;
-        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0)
+        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0 &&
+            *apdu->u.presentRequest->numberOfRecordsRequested > 0)
             chunk_it(package, apdu);
         else
             package.move();
-- 
2.43.0


From 82f7f266b5c06ce8823cf9a19c5da6e774159bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 34/89] fix: filter_sort: end the session when the target ended
 it

---
 src/filter_sort.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 02ae667..f0342fa 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -545,6 +545,8 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
 
             present_package.request() = p_apdu;
             present_package.move();
+            if (present_package.session().is_closed())
+                package.session().close();
 
             Z_GDU *gdu_res = present_package.response().get();
             if (gdu_res && gdu_res->which == Z_GDU_Z3950 &&
@@ -621,7 +623,7 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
@@ -700,7 +702,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_package(mp::Package &package)
-- 
2.43.0


From 94b5f1131ddea663e69e1d8409f124f2b8ce6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 35/89] fix: filter_sort: a failed search leaves no result set

---
 src/filter_sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index f0342fa..aa711ea 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -600,7 +600,6 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
         m_sets.erase(resultSetId);
     }
     ResultSetPtr s(new ResultSet);
-    m_sets[resultSetId] = s;
 
     Package b_package(package.session(), package.origin());
     b_package.copy_filter(package);
@@ -616,6 +615,8 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
             mp::util::piggyback_to_RecordComposition(odr,
                                                      *res->resultCount, req);
         s->hit_count = *res->resultCount;
+        if (*res->searchStatus)
+            m_sets[resultSetId] = s;
         handle_records(package, apdu_req, res->records, 1, s,
                        syntax, record_comp, resultSetId.c_str());
         package.response() = gdu_res;
-- 
2.43.0


From 9f82ac3f204f6de3f44f08900b7f76df96271798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 36/89] fix: filter_sort: only presents within the sorted
 records are served from them

---
 src/filter_sort.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index aa711ea..2413381 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -654,8 +654,9 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     for (; it != rset->record_lists.end(); it++)
         if ((*it)->cmp(req->preferredRecordSyntax))
         {
-            if (*req->resultSetStartPoint - 1 + *req->numberOfRecordsRequested
-                <= (*it)->size())
+            if (start >= 1 && start <= (*it)->size() &&
+                *req->numberOfRecordsRequested >= 1 &&
+                *req->numberOfRecordsRequested <= (*it)->size() - start + 1)
             {
                 int i;
                 Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentResponse);
-- 
2.43.0


From 81d7f997511a88b493eb9899d0d23384dd3be2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 37/89] fix: filter_sort: reference ID and next position of
 presents served from sorted records

---
 src/filter_sort.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 2413381..37f9944 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -659,11 +659,14 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
                 *req->numberOfRecordsRequested <= (*it)->size() - start + 1)
             {
                 int i;
-                Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentResponse);
+                Z_APDU *p_apdu = odr.create_APDU(Z_APDU_presentResponse,
+                                                 apdu_req);
                 Z_PresentResponse *p_res = p_apdu->u.presentResponse;
 
                 *p_res->nextResultSetPosition = *req->resultSetStartPoint +
                     *req->numberOfRecordsRequested;
+                if (*p_res->nextResultSetPosition > rset->hit_count)
+                    *p_res->nextResultSetPosition = 0;
                 *p_res->numberOfRecordsReturned =
                     *req->numberOfRecordsRequested;
                 p_res->records = (Z_Records *)
-- 
2.43.0


From 76d8423f3f1a02c2d0135522871eaa512deb3d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 38/89] fix: filter_sort: records sorted are those of the
 element set asked for

---
 src/filter_sort.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 37f9944..4efdb6d 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -74,18 +74,20 @@ namespace metaproxy_1 {
         };
         class Sort::RecordList : boost::noncopyable {
             Odr_oid *syntax;
+            std::string comp;
             std::list<Record> npr_list;
             mp::odr m_odr;
             std::string namespaces;
             std::string xpath_expr;
             bool debug;
         public:
-            bool cmp(Odr_oid *syntax);
+            bool cmp(Odr_oid *syntax, Z_RecordComposition *comp);
             void add(Z_NamePlusRecord *s);
             int size();
             Z_NamePlusRecord *get(int i, bool ascending);
             void sort();
-            RecordList(Odr_oid *, std::string namespaces,
+            RecordList(Odr_oid *, Z_RecordComposition *,
+                       std::string namespaces,
                        std::string xpath_expr, bool debug);
             ~RecordList();
         };
@@ -293,11 +295,23 @@ bool yf::Sort::Record::operator < (const Record &rhs) const
     return false;
 }
 
+static std::string comp_to_string(Z_RecordComposition *comp)
+{
+    mp::odr odr(ODR_ENCODE);
+    int len = 0;
+    char *buf = 0;
+
+    if (comp && z_RecordComposition(odr, &comp, 0, 0))
+        buf = odr_getbuf(odr, &len, 0);
+    return buf ? std::string(buf, len) : std::string();
+}
+
 yf::Sort::RecordList::RecordList(Odr_oid *syntax,
+                                 Z_RecordComposition *a_comp,
                                  std::string a_namespaces,
                                  std::string a_xpath_expr,
                                  bool a_debug)
-    : namespaces(a_namespaces), xpath_expr(a_xpath_expr), debug(a_debug)
+    : comp(comp_to_string(a_comp)), namespaces(a_namespaces), xpath_expr(a_xpath_expr), debug(a_debug)
 
 {
     if (syntax)
@@ -311,8 +325,10 @@ yf::Sort::RecordList::~RecordList()
 
 }
 
-bool yf::Sort::RecordList::cmp(Odr_oid *syntax)
+bool yf::Sort::RecordList::cmp(Odr_oid *syntax, Z_RecordComposition *comp)
 {
+    if (this->comp != comp_to_string(comp))
+        return false;
     if ((!this->syntax && !syntax)
         ||
         (this->syntax && syntax && !oid_oidcmp(this->syntax, syntax)))
@@ -509,14 +525,14 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
         std::list<RecordListPtr>::const_iterator it = s->record_lists.begin();
 
         for (; it != s->record_lists.end(); it++)
-            if ((*it)->cmp(syntax))
+            if ((*it)->cmp(syntax, comp))
                 return;
 
         Z_NamePlusRecordList *nprl = records->u.databaseOrSurDiagnostics;
         int i;    // i is number of records fetched in last response
 
         int pos = 1;
-        RecordListPtr rlp(new RecordList(syntax,
+        RecordListPtr rlp(new RecordList(syntax, comp,
                                          m_p->m_namespaces.c_str(),
                                          m_p->m_xpath_expr.c_str(),
                                          m_p->m_debug));
@@ -652,7 +668,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     ResultSetPtr rset = sets_it->second;
     std::list<RecordListPtr>::const_iterator it = rset->record_lists.begin();
     for (; it != rset->record_lists.end(); it++)
-        if ((*it)->cmp(req->preferredRecordSyntax))
+        if ((*it)->cmp(req->preferredRecordSyntax, req->recordComposition))
         {
             if (start >= 1 && start <= (*it)->size() &&
                 *req->numberOfRecordsRequested >= 1 &&
-- 
2.43.0


From a832e59dfd8de2af9cfc231cfdf78d17abd81cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 39/89] fix: filter_sort: result sets that are deleted are not
 served any longer

---
 src/filter_sort.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 4efdb6d..d4b2f43 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -106,6 +106,7 @@ namespace metaproxy_1 {
             void handle_package(mp::Package &package);
             void handle_search(mp::Package &package, Z_APDU *apdu_req);
             void handle_present(mp::Package &package, Z_APDU *apdu_req);
+            void handle_delete(mp::Package &package, Z_APDU *apdu_req);
 
             void handle_records(mp::Package &package,
                                 Z_APDU *apdu_reqq,
@@ -726,6 +727,29 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
         package.session().close();
 }
 
+void yf::Sort::Frontend::handle_delete(mp::Package &package, Z_APDU *apdu_req)
+{
+    Z_DeleteResultSetRequest *req = apdu_req->u.deleteResultSetRequest;
+
+    package.move();
+
+    Z_GDU *gdu_res = package.response().get();
+    if (gdu_res && gdu_res->which == Z_GDU_Z3950 && gdu_res->u.z3950->which ==
+        Z_APDU_deleteResultSetResponse &&
+        *gdu_res->u.z3950->u.deleteResultSetResponse->deleteOperationStatus ==
+        Z_DeleteStatus_success)
+    {
+        if (*req->deleteFunction == Z_DeleteResultSetRequest_all)
+            m_sets.clear();
+        else
+        {
+            int i;
+            for (i = 0; i < req->num_resultSetList; i++)
+                m_sets.erase(req->resultSetList[i]);
+        }
+    }
+}
+
 void yf::Sort::Frontend::handle_package(mp::Package &package)
 {
     Z_GDU *gdu = package.request().get();
@@ -740,6 +764,9 @@ void yf::Sort::Frontend::handle_package(mp::Package &package)
         case Z_APDU_presentRequest:
             handle_present(package, apdu_req);
             return;
+        case Z_APDU_deleteResultSetRequest:
+            handle_delete(package, apdu_req);
+            return;
         }
     }
     package.move();
-- 
2.43.0


From 4fdec9d7d50eb036fa157954157baee7143439ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 40/89] fix: filter_sru_to_z3950: target returning no records
 or more than asked for

---
 src/filter_sru_to_z3950.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c1af6df..743a8e7 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -843,6 +843,10 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
             // inserting all records
             int returned_recs =
                 pr->records->u.databaseOrSurDiagnostics->num_records;
+            if (returned_recs <= 0)
+                break;
+            if (returned_recs > max_recs - num)
+                returned_recs = max_recs - num;
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
-- 
2.43.0


From 773efb32ed4c966f9ab0215b8f5f40d5f4ad968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 41/89] fix: filter_sru_to_z3950: all failures of search and
 present are reported

---
 src/filter_sru_to_z3950.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 743a8e7..3c036fc 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -655,8 +655,7 @@ bool yf::SRUtoZ3950::Impl::z3950_search_request(mp::Package &package,
 
     if (!z3950_gdu || z3950_gdu->which != Z_GDU_Z3950
         || z3950_gdu->u.z3950->which != Z_APDU_searchResponse
-        || !z3950_gdu->u.z3950->u.searchResponse
-        || !z3950_gdu->u.z3950->u.searchResponse->searchStatus)
+        || !z3950_gdu->u.z3950->u.searchResponse)
     {
         yaz_add_srw_diagnostic(odr_en,
                                &(sru_pdu_res->u.response->diagnostics),
@@ -672,6 +671,14 @@ bool yf::SRUtoZ3950::Impl::z3950_search_request(mp::Package &package,
     {
         return false;
     }
+    if (!*sr->searchStatus)
+    {
+        yaz_add_srw_diagnostic(odr_en,
+                               &(sru_pdu_res->u.response->diagnostics),
+                               &(sru_pdu_res->u.response->num_diagnostics),
+                               YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE, 0);
+        return false;
+    }
     Z_FacetList *fl = yaz_oi_get_facetlist(&sr->additionalSearchInfo);
     if (!fl)
         fl =  yaz_oi_get_facetlist(&sr->otherInfo);
@@ -975,6 +982,22 @@ bool yf::SRUtoZ3950::Impl::z3950_to_srw_diagnostics_ok(
                           records->u.nonSurrogateDiagnostic);
         return false;
     }
+    if (records && records->which == Z_Records_multipleNSD)
+    {
+        Z_DiagRecs *d = records->u.multipleNonSurDiagnostics;
+        for (int i = 0; i < d->num_diagRecs; i++)
+            if (d->diagRecs[i]->which == Z_DiagRec_defaultFormat)
+            {
+                z3950_to_srw_diag(odr_en, sru_res,
+                                  d->diagRecs[i]->u.defaultFormat);
+                return false;
+            }
+        yaz_add_srw_diagnostic(odr_en,
+                               &sru_res->diagnostics,
+                               &sru_res->num_diagnostics,
+                               YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE, 0);
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From b39a11b06737d2b91269dc22bc40f7aa392d4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 42/89] fix: filter_sru_to_z3950: end session of target that
 refused it

---
 src/filter_sru_to_z3950.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 3c036fc..6793923 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -328,11 +328,13 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
         ok = mp_util::check_sru_query_exists(package, odr_en,
                                              sru_pdu_res, sr_req);
 
-        if (ok && z3950_init_request(package, odr_en,
-                                     zurl, sru_pdu_res, sru_pdu_req))
+        if (ok)
         {
-            ok = z3950_search_request(package, z3950_package, odr_en,
-                                      sru_pdu_res, sr_req, zurl, dbargs);
+            ok = z3950_init_request(package, odr_en,
+                                    zurl, sru_pdu_res, sru_pdu_req);
+            if (ok)
+                ok = z3950_search_request(package, z3950_package, odr_en,
+                                          sru_pdu_res, sr_req, zurl, dbargs);
 
             if (ok
                 && sru_pdu_res->u.response->numberOfRecords
-- 
2.43.0


From 8544b53d7d0627672e8abf0a33b83339f6e871f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 43/89] fix: filter_sru_to_z3950: start and number of records
 of any size

---
 src/filter_sru_to_z3950.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 6793923..8afe02b 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -698,8 +698,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
     const
 {
     assert(sru_pdu_res->u.response);
-    int start = 1;
-    int max_recs = 0;
+    Odr_int start = 1;
+    Odr_int max_recs = 0;
 
     if (!sr_req)
         return false;
@@ -747,7 +747,7 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
     }
 
     // start record requested negative, or larger than number of records
-    if (start < 0 || start > *sru_pdu_res->u.response->numberOfRecords)
+    if (start < 1 || start > *sru_pdu_res->u.response->numberOfRecords)
     {
         send_z3950_present = false;
         yaz_add_srw_diagnostic(odr_en,
@@ -778,9 +778,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
         max_recs = *sru_pdu_res->u.response->numberOfRecords - start + 1;
 
     Z_SRW_searchRetrieveResponse *sru_res = sru_pdu_res->u.response;
-    sru_res->records = (Z_SRW_record *)
-        odr_malloc(odr_en, max_recs * sizeof(Z_SRW_record));
     int num = 0;
+    int num_alloc = 0;
     while (num < max_recs)
     {
         // now packaging the z3950 present request
@@ -856,6 +855,16 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                 break;
             if (returned_recs > max_recs - num)
                 returned_recs = max_recs - num;
+            if (num + returned_recs > num_alloc)
+            {
+                Z_SRW_record *old_records = sru_res->records;
+                num_alloc = 2 * num + returned_recs;
+                sru_res->records = (Z_SRW_record *)
+                    odr_malloc(odr_en, num_alloc * sizeof(Z_SRW_record));
+                if (num > 0)
+                    memcpy(sru_res->records, old_records,
+                           num * sizeof(Z_SRW_record));
+            }
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
-- 
2.43.0


From 1b5d684c39ac2583843cf573a850517726fa60ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 44/89] fix: filter_sru_to_z3950: external record is octet
 aligned before it is used as such

---
 src/filter_sru_to_z3950.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 8afe02b..cbbe0ba 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -895,7 +895,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                 else if (npr->which == Z_NamePlusRecord_databaseRecord &&
                     npr->u.databaseRecord->direct_reference
                     && !oid_oidcmp(npr->u.databaseRecord->direct_reference,
-                                   yaz_oid_recsyn_xml))
+                                   yaz_oid_recsyn_xml)
+                    && npr->u.databaseRecord->which == Z_External_octet)
                 {
                     // got XML record back
                     Z_External *r = npr->u.databaseRecord;
-- 
2.43.0


From 4a8ddf6561c725f7a672247cb1255be77b71247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 45/89] fix: sru_util: host and database are XML encoded in
 explain records

---
 src/sru_util.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index 860453a..0f9c19f 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -104,21 +104,22 @@ bool mp_util::build_sru_explain(metaproxy_1::Package &package,
 
     if (explain == 0)
     {
-        explain_xml
-            = mp_util::to_string(
-                "<explain  xmlns=\"" + xmlns_explain + "\">\n"
-                "  <serverInfo protocol='SRU'>\n"
-                "    <host>")
-            + sruinfo.host
-            + mp_util::to_string("</host>\n"
-                                 "    <port>")
-            + sruinfo.port
-            + mp_util::to_string("</port>\n"
-                                 "    <database>")
-            + sruinfo.database
-            + mp_util::to_string("</database>\n"
-                                 "  </serverInfo>\n"
-                                 "</explain>\n");
+        mp::wrbuf w;
+
+        wrbuf_printf(w, "<explain  xmlns=\"%s\">\n"
+                     "  <serverInfo protocol='SRU'>\n"
+                     "    <host>", xmlns_explain.c_str());
+        wrbuf_xmlputs(w, sruinfo.host.c_str());
+        wrbuf_puts(w, "</host>\n"
+                   "    <port>");
+        wrbuf_xmlputs(w, sruinfo.port.c_str());
+        wrbuf_puts(w, "</port>\n"
+                   "    <database>");
+        wrbuf_xmlputs(w, sruinfo.database.c_str());
+        wrbuf_puts(w, "</database>\n"
+                   "  </serverInfo>\n"
+                   "</explain>\n");
+        explain_xml = wrbuf_cstr(w);
     }
     else
     {
@@ -145,7 +146,7 @@ bool mp_util::build_sru_explain(metaproxy_1::Package &package,
     sru_res->record.recordPosition = odr_intdup(odr_en, 1);
     sru_res->record.recordPacking = record_packing;
     sru_res->record.recordSchema = (char *)xmlns_explain.c_str();
-    sru_res->record.recordData_len = 1 + explain_xml.size();
+    sru_res->record.recordData_len = explain_xml.size();
     sru_res->record.recordData_buf
         = odr_strdupn(odr_en, (const char *)explain_xml.c_str(),
                       1 + explain_xml.size());
-- 
2.43.0


From 113c5fb5f8307a6961cbe358b3e685ef3a655628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 46/89] fix: filter_http_rewrite: patterns matching the empty
 string

---
 src/filter_http_rewrite.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index a4b865b..a18f232 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -637,6 +637,12 @@ bool yf::HttpRewrite::Rule::test_patterns(
             out.append(rvalue);
         }
         start = bwhat[0].second; //move search forward
+        if (bwhat[0].first == bwhat[0].second) // empty match
+        {
+            if (start == end)
+                break;
+            out += *start++;
+        }
     }
     out.append(start, end);
     txt = out;
-- 
2.43.0


From 37a73c734526162560a7463a2badd1587cdcbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 47/89] fix: filter_http_rewrite: groups that capture nothing
 are kept as they are

---
 src/filter_http_rewrite.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index a18f232..46b0547 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -653,6 +653,8 @@ void yf::HttpRewrite::Replace::parse_groups(std::string pattern)
 {
     int gnum = 0;
     bool esc = false;
+    bool in_set = false;
+    size_t set_start = 0;
     const std::string &str = pattern;
     std::string res;
     start_anchor = str[0] == '^';
@@ -665,25 +667,39 @@ void yf::HttpRewrite::Replace::parse_groups(std::string pattern)
             esc = true;
             continue;
         }
-        if (!esc && str[i] == '(') //group starts
+        if (!esc && in_set) //inside character set
+        {
+            // ] right after [ or [^ is part of the set
+            if (str[i] == ']' && i > set_start)
+                in_set = false;
+        }
+        else if (!esc && str[i] == '[')
+        {
+            in_set = true;
+            set_start = i + 1;
+            if (set_start < str.size() && str[set_start] == '^')
+                set_start++;
+        }
+        else if (!esc && str[i] == '(') //group starts
         {
             gnum++;
             if (i+1 < str.size() && str[i+1] == '?') //group with attrs
             {
                 i++;
-                if (i+1 < str.size() && str[i+1] == ':') //non-capturing
+                size_t j = i + 1;
+                if (j < str.size() && str[j] == 'P') //optional, python
+                    j++;
+                if (j + 1 >= str.size() || str[j] != '<'
+                    || str[j + 1] == '=' || str[j + 1] == '!')
                 {
-                    if (gnum > 0) gnum--;
-                    res += str[i];
-                    i++;
+                    // non-capturing, lookahead, ..
+                    gnum--;
                     res += str[i];
                     continue;
                 }
-                if (i+1 < str.size() && str[i+1] == 'P') //optional, python
-                    i++;
-                if (i+1 < str.size() && str[i+1] == '<') //named
+                else //named
                 {
-                    i++;
+                    i = j;
                     std::string gname;
                     bool term = false;
                     while (++i < str.size())
-- 
2.43.0


From 885eaacc26b97b0ec616db0346c2423af3446481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:47 +0000
Subject: [PATCH 48/89] fix: filter_http_rewrite: bad regular expressions of
 X-Metaproxy-SkipLink are ignored

---
 src/filter_http_rewrite.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 46b0547..066641e 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -208,18 +208,25 @@ void yf::HttpRewrite::Phase::read_skip_headers(Z_HTTP_Request *hreq,
             continue; // should not happen
         std::string page(hv,p);
         std::string link(p+1);
-        boost::regex pagere(page);
-        if ( boost::regex_search(url, pagere) )
+        try
         {
-            yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
-                    page.c_str(), url.c_str() );
-            boost::regex linkre(link);
-            skip_list.push_back(linkre);
+            boost::regex pagere(page);
+            if ( boost::regex_search(url, pagere) )
+            {
+                yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
+                        page.c_str(), url.c_str() );
+                boost::regex linkre(link);
+                skip_list.push_back(linkre);
+            }
+            else
+            {
+                yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
+                        url.c_str(), page.c_str() );
+            }
         }
-        else
+        catch (boost::regex_error &e)
         {
-            yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
-                    url.c_str(), page.c_str() );
+            yaz_log(YLOG_WARN, "SkipLink ignored, '%s': %s", hv, e.what());
         }
     }
 }
-- 
2.43.0


From e501b2df6d563c39751e7e58caa2759e7ca9b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 49/89] fix: filter_http_rewrite: bad references in
 replacements are refused when configured

---
 src/filter_http_rewrite.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 066641e..7876d84 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -942,6 +942,8 @@ void yf::HttpRewrite::configure_phase(const xmlNode *ptr, Phase &phase)
                             from.c_str(), replace.recipe.c_str());
                     if (!from.empty())
                     {
+                        // throws if there are bad references
+                        replace.sub_vars(std::map<std::string, std::string>());
                         replace.parse_groups(from);
                         rule->replace_list.push_back(replace);
                     }
-- 
2.43.0


From 68ac1cbd1cc0f0221fa235d2613633cfb57e4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:13 +0000
Subject: [PATCH 50/89] fix: filter_http_rewrite: content without mime matches
 no body

---
 src/filter_http_rewrite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 7876d84..fc4bcc4 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -338,6 +338,7 @@ void yf::HttpRewrite::Phase::rewrite_body(
         yaz_log(YLOG_LOG, "rewrite_body: content_type=%s type=%s",
                 content_type, cit->type.c_str());
         if (cit->type != "headers"
+            && !cit->content_re.empty()
             && regex_match(content_type, cit->content_re))
             break;
     }
-- 
2.43.0


From ed3d04f568204cc53c6d22b89681f7c808c9f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:38 +0000
Subject: [PATCH 51/89] fix: filter_http_rewrite1: responses that are not HTTP
 or hold binary data

---
 src/filter_http_rewrite1.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/filter_http_rewrite1.cpp b/src/filter_http_rewrite1.cpp
index b1132cd..574870e 100644
--- a/src/filter_http_rewrite1.cpp
+++ b/src/filter_http_rewrite1.cpp
@@ -88,8 +88,8 @@ void yf::HttpRewrite1::Rep::rewrite_response(mp::odr &o, Z_HTTP_Response *hres)
         }
         if (number_of_replaces > 0)
         {
-            hres->content_buf = odr_strdup(o, text.c_str());
-            hres->content_len = strlen(hres->content_buf);
+            hres->content_buf = odr_strdupn(o, text.data(), text.length());
+            hres->content_len = text.length();
         }
     }
 }
@@ -105,11 +105,10 @@ void yf::HttpRewrite1::process(mp::Package &package) const
         package.move();
 
         Z_GDU *gdu_res = package.response().get();
-        Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
-        if (hres)
+        if (gdu_res && gdu_res->which == Z_GDU_HTTP_Response)
         {
             mp::odr o;
-            m_p->rewrite_response(o, hres);
+            m_p->rewrite_response(o, gdu_res->u.HTTP_Response);
             package.response() = gdu_res;
         }
     }
-- 
2.43.0


From c132995de646f6c8518339f44b7095ac8aef3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:19 +0000
Subject: [PATCH 52/89] fix: plain files: do not loop forever on long lines and
 read errors

---
 src/plainfile.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/plainfile.cpp b/src/plainfile.cpp
index 5b560c8..56a9067 100644
--- a/src/plainfile.cpp
+++ b/src/plainfile.cpp
@@ -25,8 +25,6 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include <metaproxy/util.hpp>
 
-#define PLAINFILE_MAX_LINE 256
-
 namespace mp = metaproxy_1;
 
 namespace metaproxy_1 {
@@ -81,23 +79,22 @@ bool mp::PlainFile::getline(std::vector<std::string> &args)
     if (!m_p->fh)
         return false;  // no file at all.
 
-    char line_cstr[PLAINFILE_MAX_LINE];
+    std::string line;
     while (true)
     {
-        if (m_p->fh->eof())
+        if (!std::getline(*m_p->fh, line))
         {
             m_p->close();   // might as well close it now
             return false;
         }
 
         m_p->lineno++;
-        m_p->fh->getline(line_cstr, PLAINFILE_MAX_LINE-1);
-        char first = line_cstr[0];
+        char first = line.c_str()[0];
         if (first && !strchr("# \t", first))
             break;
         // comment or blank line.. read next.
     }
-    const char *cp = line_cstr;
+    const char *cp = line.c_str();
     while (true)
     {
         // skip whitespace
-- 
2.43.0


From 17de630086f83474f3ed445e2b852c76aebc419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:19 +0000
Subject: [PATCH 53/89] fix: http_file: only serve files within the document
 root

---
 src/filter_http_file.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_file.cpp b/src/filter_http_file.cpp
index 500cdc1..e4b1c13 100644
--- a/src/filter_http_file.cpp
+++ b/src/filter_http_file.cpp
@@ -260,7 +260,13 @@ void yf::HttpFile::Rep::fetch_uri(mp::Session &session,
 
             if (path.compare(0, l, it->m_url_path_prefix) == 0)
             {
-                std::string fname = it->m_file_root + path.substr(l);
+                std::string rest = path.substr(l);
+                std::string fname = it->m_file_root;
+                // stay within the document root
+                if (rest.length() && rest[0] != '/' &&
+                    fname[fname.length() - 1] != '/')
+                    fname += "/";
+                fname += rest;
                 package.log("http_file", YLOG_LOG, "%s", fname.c_str());
                 fetch_file(session, req, fname, package, it->m_raw,
                     it->m_passthru);
-- 
2.43.0


From a956cb50289f3b14a6cc90f0c19f7c67289568f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 54/89] fix: record_transform: one conversion at a time

---
 src/filter_record_transform.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index 38db551..7717006 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -50,6 +50,7 @@ namespace metaproxy_1 {
             void configure(const xmlNode * xml_node, const char *path);
         private:
             yaz_retrieval_t m_retrieval;
+            mutable boost::mutex m_mutex;
         };
     }
 }
@@ -537,7 +538,11 @@ void yf::RecordTransform::Impl::process(mp::Package &package) const
     {
         int i;
         for (i = 0; i < records->num_records; i++)
+        {
+            // conversion keeps its error in rc, which sessions share
+            boost::mutex::scoped_lock lock(m_mutex);
             convert_npr(rc, match_syntax, odr_en, records, i);
+        }
         package.response() = gdu_res;
     }
     return;
-- 
2.43.0


From 3a241b88b01129715213a8aa221f726bb9258a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 55/89] fix: cql_rpn: release CQL buffer when conversion fails

---
 src/filter_cql_rpn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index dbe84e3..9b718d3 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -165,6 +165,7 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
                 Z_APDU *f_apdu =
                     odr.create_searchResponse(apdu_req, r, addinfo);
                 package.response() = f_apdu;
+                wrbuf_destroy(cql);
                 return;
             }
             else
-- 
2.43.0


From 45a22c74b0370afc665c3a6c2f2ce0596e93d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 56/89] fix: HTML parser: each document starts outside of
 script

---
 src/html_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index a069b19..e0dd9c5 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -221,6 +221,7 @@ void mp::HTMLParser::Rep::tagText(HTMLParserEvent &event,
 void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
 {
     const char *text_start = cp;
+    nest = true;
     while (*cp)
     {
         if (*cp++ != '<')
-- 
2.43.0


From eab479abcf9c100249d343f14f7942cb33b892fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 57/89] fix: refuse unknown elements among routes

---
 src/router_flexml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index 807a4a7..0cdc30b 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -225,7 +225,7 @@ void mp::RouterFleXML::Rep::parse_xml_routes(xmlDocPtr doc,
     mp::xml::check_element_mp(node, "route");
 
     unsigned int route_nr = 0;
-    while (mp::xml::is_element_mp(node, "route"))
+    while (node && mp::xml::check_element_mp(node, "route"))
     {
         route_nr++;
 
-- 
2.43.0


From 7a527f87244c3a7d5168338cd39a867473059045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 58/89] fix: record_transform: close character set converter
 for OPAC

---
 src/filter_record_transform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index 7717006..659ddbb 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -311,6 +311,8 @@ static void convert_npr(yaz_record_conv_t rc,
                         "XML to OPAC conversion failed");
             }
             yaz_marc_destroy(mt);
+            if (cd)
+                yaz_iconv_close(cd);
         }
         else
         {
-- 
2.43.0


From 2f3a6c0545e8fdfc29855a803f4dc2c1db6831e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 59/89] fix: cgi: keep response of programs that do not read
 the body

---
 src/filter_cgi.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 70b16f0..ffa0349 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -23,6 +23,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <yaz/zgdu.h>
 #include <yaz/log.h>
 
+#include <errno.h>
 #include <unistd.h>
 #include <fcntl.h>
 #include <signal.h>
@@ -243,14 +244,15 @@ void yf::CGI::process(mp::Package &package) const
                             break;
                         wrbuf_write(w, buf, rd);
                     }
-                    if (num == 2 && fds[1].output_mask & yaz_poll_write)
+                    if (num == 2 && fds[1].output_mask)
                     {
                         ssize_t wd = write(fds_request[1],
                                            hreq->content_buf + no_write,
                                            hreq->content_len - no_write);
-                        if (wd <= 0)
-                            break;
-                        no_write += wd;
+                        if (wd > 0)
+                            no_write += wd;
+                        else if (errno != EAGAIN && errno != EINTR)
+                            no_write = hreq->content_len; // not reading it
                     }
                 }
                 close(fds_request[1]);
-- 
2.43.0


From 082f3a86f0f07212541cec1c54f05386c7dd6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 60/89] fix: cgi: programs do not inherit pipes of other
 requests

---
 src/filter_cgi.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index ffa0349..766eb87 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -163,6 +163,8 @@ void yf::CGI::process(mp::Package &package) const
     {
         if (strncmp(it->path.c_str(), path_cstr, it->path.length()) == 0)
         {
+            // no other program may be started before pipes are marked
+            boost::mutex::scoped_lock lock(m_p->m_mutex);
             int fds_response[2];
             int r = pipe(fds_response);
             if (r == -1)
@@ -184,6 +186,11 @@ void yf::CGI::process(mp::Package &package) const
                 continue;
             }
 
+            for (int i = 0; i < 2; i++)
+            {
+                fcntl(fds_response[i], F_SETFD, FD_CLOEXEC);
+                fcntl(fds_request[i], F_SETFD, FD_CLOEXEC);
+            }
             int status;
             pid_t pid = ::fork();
             switch (pid)
@@ -212,10 +219,8 @@ void yf::CGI::process(mp::Package &package) const
                 close(fds_response[1]);
                 close(fds_request[0]);
                 if (pid)
-                {
-                    boost::mutex::scoped_lock lock(m_p->m_mutex);
                     m_p->children[pid] = pid;
-                }
+                lock.unlock();
                 WRBUF w = wrbuf_alloc();
                 wrbuf_puts(w, "HTTP/1.1 200 OK\r\n");
                 fcntl(fds_response[0], F_SETFL, O_NONBLOCK);
-- 
2.43.0


From 288b87d7c2db4c5c7e48544e98cd246f3db949a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 61/89] fix: cgi: answer request once when pipes cannot be made

---
 src/filter_cgi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 766eb87..b1ba237 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -172,7 +172,7 @@ void yf::CGI::process(mp::Package &package) const
                 zgdu_res = odr.create_HTTP_Response(
                     package.session(), hreq, 400);
                 package.response() = zgdu_res;
-                continue;
+                return;
             }
             int fds_request[2];
             r = pipe(fds_request);
@@ -183,7 +183,7 @@ void yf::CGI::process(mp::Package &package) const
                 package.response() = zgdu_res;
                 close(fds_response[0]);
                 close(fds_response[1]);
-                continue;
+                return;
             }
 
             for (int i = 0; i < 2; i++)
-- 
2.43.0


From 82d8f88f1ce1ecfe00ad27d824b60f24349830c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 62/89] fix: cgi: documentroot is the value of the element

---
 src/filter_cgi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index b1ba237..21ab1fa 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -346,7 +346,7 @@ void yf::CGI::configure(const xmlNode *ptr, bool test_only, const char *path)
         }
         else if (!strcmp((const char *) ptr->name, "documentroot"))
         {
-            m_p->documentroot = path;
+            m_p->documentroot = mp::xml::get_text(ptr);
         }
         else
         {
-- 
2.43.0


From 424d17af36f0d34cb27391139967643f49c2fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 63/89] fix: cgi: child does not run exit handlers of proxy,
 nor programs elsewhere

---
 src/filter_cgi.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 21ab1fa..534e502 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -129,20 +129,22 @@ void yf::CGI::Rep::child(Z_HTTP_Request *hreq, const CGI::Exec *it)
         setenv(it_e->first.c_str(), it_e->second.c_str(), 1);
     // change directory to configuration root
     // then to CGI program directory (could be relative)
-    chdir(documentroot.c_str());
+    if (chdir(documentroot.c_str()))
+        _exit(1);
     char *program = xstrdup(program_cstr);
     char *cp = strrchr(program, '/');
     if (cp)
     {
         *cp++ = '\0';
-        chdir(program);
+        if (chdir(*program ? program : "/"))
+            _exit(1);
     }
     else
         cp = program;
     int r = execl(cp, cp, (char *) 0);
     if (r == -1)
-        exit(1);
-    exit(0);
+        _exit(1);
+    _exit(0);
 }
 
 void yf::CGI::process(mp::Package &package) const
-- 
2.43.0


From 57ff7dce8c3c10e8548119fd931d2ba18cc42080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 64/89] fix: log: sort request taken from the request

---
 src/filter_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 27ebadb..7de6b2b 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -395,7 +395,7 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         else
         {
             Z_SortResponse *res = z_res->u.sortResponse;
-            Z_SortRequest *req = z_res->u.sortRequest;
+            Z_SortRequest *req = z_req->u.sortRequest;
             int i;
 
             if (*res->sortStatus == Z_SortResponse_success)
-- 
2.43.0


From 14d38a9e96e00292ad8bb1a8a4613a40dbbbba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 65/89] fix: log: line for empty diagnostics and missing
 response

---
 src/filter_log.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 7de6b2b..48ea991 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -162,7 +162,9 @@ static void log_DefaultDiagFormat(WRBUF w, Z_DefaultDiagFormat *e)
 
 static void log_DiagRecs(WRBUF w, int num_diagRecs, Z_DiagRec **diags)
 {
-    if (diags[0]->which != Z_DiagRec_defaultFormat)
+    if (num_diagRecs < 1)
+        wrbuf_puts(w, "-");
+    else if (diags[0]->which != Z_DiagRec_defaultFormat)
         wrbuf_puts(w ,"(diag not in default format?)");
     else
     {
@@ -479,7 +481,8 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         }
         break;
     default:
-        wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        wrbuf_printf(w, "REQ=%d RES=%d", z_req->which,
+                     z_res ? z_res->which : 0);
     }
 }
 
-- 
2.43.0


From 94f3c16a2e5de587dd1f87462bd1351858db2207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 66/89] fix: log: one line per entry

---
 src/filter_log.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 48ea991..71530d9 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -844,6 +844,11 @@ yf::Log::Impl::LFile::~LFile()
 void yf::Log::Impl::LFile::log(const std::string &date_format,
                                std::ostringstream &os)
 {
+    std::string line = os.str();
+    // values such as terms and user names may have line breaks
+    for (size_t i = 0; i < line.length(); i++)
+        if (line[i] == '\n' || line[i] == '\r')
+            line[i] = ' ';
     if (fhandle)
     {
         char datestr[80];
@@ -859,11 +864,11 @@ void yf::Log::Impl::LFile::log(const std::string &date_format,
             fputs(datestr, fhandle);
             fputs(" ", fhandle);
         }
-        fputs(os.str().c_str(), fhandle);
+        fputs(line.c_str(), fhandle);
         fputc('\n', fhandle);
     }
     else
-        yaz_log(YLOG_LOG, "%s", os.str().c_str());
+        yaz_log(YLOG_LOG, "%s", line.c_str());
 }
 
 void yf::Log::Impl::LFile::flush()
-- 
2.43.0


From 519aabc53e2bdd7501eefcccf73ff63cfbe5e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:25 +0000
Subject: [PATCH 67/89] fix: bounds of small and large result sets are
 inclusive

Z39.50: a set is small if its size does not exceed the small set upper
bound, and large if it is not less than the large set lower bound.
---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index de57265..0b32904 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -252,7 +252,7 @@ void mp_util::piggyback(Odr_int smallSetUpperBound,
 {
     // deal with piggyback
 
-    if (result_set_size < smallSetUpperBound)
+    if (result_set_size <= smallSetUpperBound)
     {
         // small set . Return all records in set
         number_to_present = result_set_size;
@@ -260,7 +260,7 @@ void mp_util::piggyback(Odr_int smallSetUpperBound,
             *element_set_name = smallSetElementSetNames;
 
     }
-    else if (result_set_size > largeSetLowerBound)
+    else if (result_set_size >= largeSetLowerBound)
     {
         // large set . Return no records
         number_to_present = 0;
-- 
2.43.0


From d9756f1f0fdba4f2bcff056e284a8b427c4d9573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:25 +0000
Subject: [PATCH 68/89] fix: multi: element sets of searches apply to records
 returned along

---
 src/filter_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 291952f..2572b20 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -739,6 +739,8 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         p_req->resultSetId = req->resultSetName;
         *p_req->resultSetStartPoint = 1;
         *p_req->numberOfRecordsRequested = number;
+        p_req->recordComposition =
+            mp::util::piggyback_to_RecordComposition(odr, result_set_size, req);
         pp.request() = p_apdu;
         present(pp, p_apdu);
 
-- 
2.43.0


From 5284af14b16453a35c00919e14bf03306096f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:38 +0000
Subject: [PATCH 69/89] fix: option -w does not imply debug mode

---
 src/metaproxy_prog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index fd0302a..dac9760 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -213,6 +213,7 @@ static int sc_main(
                 std::cerr << "chdir " << arg << " failed" << std::endl;
                 return 1;
             }
+            break;
         case 'X':
             mode = YAZ_DAEMON_DEBUG;
             break;
-- 
2.43.0


From fb7415f2e150aa484f414bf59ba8799ebbace0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 70/89] fix: signal during shutdown used a router being
 destroyed

---
 src/metaproxy_prog.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index dac9760..a8849b9 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -98,8 +98,9 @@ static void work_common(void *data)
     mp::Package pack;
     pack.router(*routerp).move();
     yaz_log(YLOG_LOG, "metaproxy stop");
-    delete routerp;
-    routerp = 0;
+    mp::RouterXML *router = routerp;
+    routerp = 0; // no longer for signal handler
+    delete router;
     _exit(0);
 }
 
-- 
2.43.0


From 1686087dcc470d50bf7594bf5cd75a7191f63e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:54 +0000
Subject: [PATCH 71/89] fix: signal right at start was lost

The handlers were installed before the router they refer to was set.
---
 src/metaproxy_prog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index a8849b9..50268c6 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -85,6 +85,7 @@ static void sig_x_handler(int signo)
 static void work_common(void *data)
 {
     set_log_prefix();
+    routerp = (mp::RouterXML*) data; // before signals are handled
 #if HAVE_UNISTD_H
     process_group = getpgid(0); // save process group ID
     my_pid = getpid();
@@ -92,7 +93,6 @@ static void work_common(void *data)
     signal(SIGTERM, sig_x_handler);
     signal(SIGUSR1, sig_x_handler);
 #endif
-    routerp = (mp::RouterXML*) data;
     routerp->start();
 
     mp::Package pack;
-- 
2.43.0


From 2418da4dc8edc9984e3d789ec8f62af5ef3c9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 72/89] fix: no memory allocation in signal handler

Copying a route could deadlock if the signal interrupted malloc.
---
 src/router_flexml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index 0cdc30b..94e1aa1 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -524,7 +524,8 @@ void mp::RouterFleXML::stop(int signo)
     route_it = m_p->m_routes.begin();
     while (route_it != m_p->m_routes.end())
     {
-        RouterFleXML::Route route = route_it->second;
+        // may be called by a signal handler: must not allocate memory
+        RouterFleXML::Route &route = route_it->second;
 
         std::list<boost::shared_ptr<const mp::filter::Base> >::iterator it;
 
-- 
2.43.0


From 2d64734607beefcc052fe254a03bbf069bbce918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 73/89] fix: SIGTERM was ignored after SIGUSR1

---
 src/metaproxy_prog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index 50268c6..692c7f6 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -69,7 +69,7 @@ static pid_t my_pid = 0;
 
 static void sig_x_handler(int signo)
 {
-    if (sig_received)
+    if (sig_received == SIGTERM || sig_received == signo)
         return;
     if ( getpid() != my_pid ) // can happen in unlikely cases
         return; // when the sig hits a child just after fork(), before it
-- 
2.43.0


From 97eb2e345a4833981cfaf0bace28521a0c927876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 74/89] fix: load_balance: refuse unknown configuration
 elements

---
 src/filter_load_balance.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 3de7e65..33428ba 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -21,6 +21,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <metaproxy/filter.hpp>
 #include "filter_load_balance.hpp"
 #include <metaproxy/util.hpp>
+#include <metaproxy/xmlutil.hpp>
 
 
 #include <boost/thread/mutex.hpp>
@@ -99,6 +100,7 @@ yf::LoadBalance::~LoadBalance()
 void yf::LoadBalance::configure(const xmlNode *xmlnode, bool test_only,
                                 const char *path)
 {
+    mp::xml::check_empty(xmlnode);
     m_p->configure(xmlnode);
 }
 
-- 
2.43.0


From 2063e07b666916447be57add02cd2ccb2440c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 75/89] fix: http_rewrite: refuse unknown elements in content
 sections

---
 src/filter_http_rewrite.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index fc4bcc4..2f0522c 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -893,6 +893,13 @@ void yf::HttpRewrite::Content::configure(
                      " in http_rewrite filter");
             within_list.push_back(w);
         }
+        else
+        {
+            throw mp::filter::FilterException
+                ("Bad element '"
+                 + std::string((const char *) ptr->name)
+                 + "' in content section of http_rewrite filter");
+        }
     }
 }
 
-- 
2.43.0


From 41ce4fc4d38ceebe486077cbea9278851077549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 76/89] fix: http_client: 404 without target also with
 bind_host

The bind address was appended to the empty URI, which made it the target.
---
 src/filter_http_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index e3d6116..7a3f18b 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -117,7 +117,7 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
         else
             uri = hreq->path;
 
-        if (bind_host)
+        if (bind_host && uri.length())
         {
             std::string host = package.origin().get_bind_address();
             uri.append(" ");
-- 
2.43.0


From 16e92782e9965975a310cfb8ba51c8f6a3f6a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 77/89] fix: http_client: peer is the last of X-Forwarded-For

With several X-Forwarded-For headers the peer was appended to the first
one, so that a client could make up the last address.
---
 src/filter_http_client.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index 7a3f18b..89b68f9 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -96,10 +96,11 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
         if (x_forwarded_for)
         {
             std::string peer_name2 = package.origin().get_address();
-            const char *peer_name1 =
-                z_HTTP_header_lookup(hreq->headers, "X-Forwarded-For");
+            const char *peer_name1;
             std::string pcomb;
-            if (peer_name1)
+            // several headers amount to one list
+            while ((peer_name1 =
+                    z_HTTP_header_remove(&hreq->headers, "X-Forwarded-For")))
             {
                 pcomb.append(peer_name1);
                 pcomb.append(", ");
-- 
2.43.0


From b7875cfccbebdf48fe2d647070b478e6536d1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:55 +0000
Subject: [PATCH 78/89] fix: frontend_net: bodies of chunked HTTP requests were
 lost

The decoded body was passed on announced as chunked.
---
 src/filter_frontend_net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 271827b..6383a84 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -448,6 +448,9 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
         if (f)
             p->origin().set_tcpip_address(std::string(f), m_session.id());
 
+        // the body is decoded already, and GDUs are encoded when copied
+        z_HTTP_header_remove(&hreq->headers, "Transfer-Encoding");
+
         if (m_p->m_stat_req.length()
             && !strcmp(hreq->path, m_p->m_stat_req.c_str()))
         {
-- 
2.43.0


From 80e617697c03f2115ceca0be297ee4c77570525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:06 +0000
Subject: [PATCH 79/89] fix: zeerex_explain: crash for requests that are not
 SRU

There is no SOAP envelope to put the response into in that case.
---
 src/filter_zeerex_explain.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/filter_zeerex_explain.cpp b/src/filter_zeerex_explain.cpp
index f82039d..cd6ed9f 100644
--- a/src/filter_zeerex_explain.cpp
+++ b/src/filter_zeerex_explain.cpp
@@ -159,10 +159,17 @@ void yf::ZeeRexExplain::Impl::process(mp::Package &package)
                &diagnostic, &num_diagnostic, &soap,
                charset)))
     {
-        mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
-                                   sruinfo, explainnode);
-        mp_util::build_sru_response(package, odr_en, soap,
-                           sru_pdu_res, charset, stylesheet);
+        if (soap)
+        {
+            mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
+                                       sruinfo, explainnode);
+            mp_util::build_sru_response(package, odr_en, soap,
+                                        sru_pdu_res, charset, stylesheet);
+        }
+        else
+            package.response() =
+                odr_en.create_HTTP_Response(package.session(),
+                                            zgdu_req->u.HTTP_Request, 400);
         package.session().close();
         return;
     }
-- 
2.43.0


From a19738a370737c7e3bcc6e234c984d1a9a26bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 80/89] fix: zoom: first element of a Torus layer was skipped,
 crash if it is empty

---
 src/filter_zoom.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 3a9c499..a0f9b71 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -583,12 +583,14 @@ yf::Zoom::SearchablePtr yf::Zoom::Impl::parse_torus_record(const xmlNode *ptr)
 {
     Zoom::SearchablePtr s(new Searchable(bibset));
 
-    for (ptr = ptr->children; ptr; ptr = ptr->next)
+    const xmlNode *next;
+    for (ptr = ptr->children; ptr; ptr = next)
     {
+        next = ptr->next;
         if (ptr->type != XML_ELEMENT_NODE)
             continue;
         if (!strcmp((const char *) ptr->name, "layer"))
-            ptr = ptr->children;
+            next = ptr->children;
         else if (!strcmp((const char *) ptr->name,
                          "authentication"))
         {
-- 
2.43.0


From ecf4e63d1537553fd7f12f50a484e252f87438ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 81/89] fix: zoom: escape backslash in terms of the Torus
 authentication query

---
 src/filter_zoom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index a0f9b71..368a0a9 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2680,7 +2680,7 @@ std::string escape_cql_term(std::string inp)
     size_t i;
     for (i = 0; i < l; i++)
     {
-        if (strchr("*?^\"", inp[i]))
+        if (strchr("*?^\"\\", inp[i]))
             res += "\\";
         res += inp[i];
     }
-- 
2.43.0


From ac45bfaeb73a968973174526464ca3df72e573cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 82/89] fix: zoom: crash on Present when the search failed
 before reaching the target

---
 src/filter_zoom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 368a0a9..80dca92 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2567,7 +2567,7 @@ void yf::Zoom::Frontend::handle_present(mp::Package &package)
     Z_PresentRequest *pr = apdu_req->u.presentRequest;
 
     mp::odr odr;
-    if (!m_backend)
+    if (!m_backend || (!m_backend->enable_explain && !m_backend->m_resultset))
     {
         package.response() = odr.create_presentResponse(
             apdu_req, YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST, 0);
-- 
2.43.0


From d6ff2f12de42e678a9ea6d368456f6230b5baa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 83/89] fix: zoom: empty CCL query ended the program

---
 src/filter_zoom.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 80dca92..09a2139 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2441,10 +2441,9 @@ next_proxy:
         return;
     }
 
-    if (ccl_wrbuf.len())
+    if (pqf_wrbuf.len() == 0)
     {
         // CCL to PQF
-        assert(pqf_wrbuf.len() == 0);
         int cerror, cpos;
         struct ccl_rpn_node *cn;
         package.log("zoom", YLOG_LOG, "CCL: %s", wrbuf_cstr(ccl_wrbuf));
-- 
2.43.0


From 5cf8061f300786308484b911d86b0596b215bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 84/89] fix: zoom: explain records: negative count, record
 without data

---
 src/filter_zoom.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 09a2139..fcbcab7 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1745,6 +1745,8 @@ Z_Records *yf::Zoom::Frontend::get_explain_records(
     }
     if (number_to_present > 10000)
         number_to_present = 10000;
+    if (number_to_present < 0)
+        number_to_present = 0;
 
     xmlNode *ptr = xmlDocGetRootElement(b->explain_doc);
 
@@ -1759,6 +1761,13 @@ Z_Records *yf::Zoom::Frontend::get_explain_records(
         xmlNode *res = xml_node_search(ptr, &num, start + i + 1);
         if (!res)
             break;
+        if (!res->children)
+        {
+            npl->records[i] = zget_surrogateDiagRec(
+                odr, odr_strdup(odr, b->m_frontend_database.c_str()),
+                YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS, 0);
+            continue;
+        }
         xmlBufferPtr xml_buf = xmlBufferCreate();
         xmlNode *tmp_node = xmlCopyNode(res->children, 1);
         xmlNodeDump(xml_buf, tmp_node->doc, tmp_node, 0, 0);
-- 
2.43.0


From 93d49a822ed461db6b867ea2dfb6e2495d4e1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 85/89] fix: zoom: buffer overflows in diagnostics and record
 type

---
 src/filter_zoom.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index fcbcab7..1cd5c82 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1063,7 +1063,8 @@ bool yf::Zoom::Frontend::create_content_session(mp::Package &package,
                             "unable to open content config %s",
                             m_p->content_config_file.c_str());
                 *error = YAZ_BIB1_TEMPORARY_SYSTEM_ERROR;
-                *addinfo = (char *)  odr_malloc(odr, 70 + tmp_file.length());
+                *addinfo = (char *)  odr_malloc(
+                    odr, 70 + m_p->content_config_file.length());
                 sprintf(*addinfo, "zoom: unable to open content config %s",
                         m_p->content_config_file.c_str());
                 return false;
@@ -1314,7 +1315,7 @@ yf::Zoom::BackendPtr yf::Zoom::Frontend::get_backend_from_databases(
                         {
                             *error = YAZ_BIB1_UNSPECIFIED_ERROR;
                             *addinfo = (char*)
-                                odr_malloc(odr, 40 + torus_db.length());
+                                odr_malloc(odr, 40 + database.length());
                             sprintf(*addinfo, "multiple records for udb=%s",
                                     database.c_str());
                             xmlFreeDoc(doc);
@@ -1898,7 +1899,7 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
             }
             else if (enable_pz2_retrieval)
             {
-                char rec_type_str[100];
+                std::string rec_type;
                 const char *record_encoding = 0;
 
                 if (b->sptr->record_encoding.length())
@@ -1906,12 +1907,13 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
                 else if (assume_marc8_charset)
                     record_encoding = "marc8";
 
-                strcpy(rec_type_str, use_turbomarc ? "txml" : "xml");
+                rec_type = use_turbomarc ? "txml" : "xml";
                 if (record_encoding)
                 {
-                    strcat(rec_type_str, "; charset=");
-                    strcat(rec_type_str, record_encoding);
+                    rec_type += "; charset=";
+                    rec_type += record_encoding;
                 }
+                const char *rec_type_str = rec_type.c_str();
 
                 package.log("zoom", YLOG_LOG, "Getting record of type %s",
                             rec_type_str);
-- 
2.43.0


From 3a8402f2208b9a3d190b04b57fbd1f31683c568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 86/89] fix: zoom: many cf_ parameters of a Torus record
 overflowed

---
 src/filter_zoom.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 1cd5c82..5ee7580 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1549,6 +1549,16 @@ yf::Zoom::BackendPtr yf::Zoom::Frontend::get_backend_from_databases(
             out_names[no_out_args] = "nocproxy";
             out_values[no_out_args++] = odr_strdup(odr, param_nocproxy);
         }
+        const char **all_names = (const char **)
+            odr_malloc(odr, (20 + no_parms + sptr->cf_param.size())
+                       * sizeof(*all_names));
+        const char **all_values = (const char **)
+            odr_malloc(odr, (20 + no_parms + sptr->cf_param.size())
+                       * sizeof(*all_values));
+        memcpy(all_names, out_names, no_out_args * sizeof(*all_names));
+        memcpy(all_values, out_values, no_out_args * sizeof(*all_values));
+        out_names = all_names;
+        out_values = all_values;
         std::map<std::string,std::string>::const_iterator it;
         for (it = sptr->cf_param.begin(); it != sptr->cf_param.end(); it++)
         {
-- 
2.43.0


From f750a8d1349540de2a396fdea1825c428af3a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 87/89] fix: zoom: crash on unknown requestSyntax in Torus
 record

---
 src/filter_zoom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 5ee7580..546a874 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1703,8 +1703,9 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
             syntax_name = configured_request_syntax.c_str();
             const Odr_oid *syntax_oid =
                 yaz_string_to_oid(yaz_oid_std(), CLASS_RECSYN, syntax_name);
-            if (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
-                || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac))
+            if (syntax_oid &&
+                (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
+                 || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac)))
                 assume_marc8_charset = true;
         }
     }
-- 
2.43.0


From 7b5f7a5e2791850147bf4636cd988870ecd83399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 88/89] fix: zoom: leaks of queries, Torus documents and the
 record stylesheet

---
 src/filter_zoom.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 546a874..52d3bfa 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -576,6 +576,8 @@ yf::Zoom::Impl::~Impl()
 {
     if (explain_xsp)
         xsltFreeStylesheet(explain_xsp);
+    if (record_xsp)
+        xsltFreeStylesheet(record_xsp);
     ccl_qual_rm(&bibset);
 }
 
@@ -2531,6 +2533,7 @@ next_proxy:
             apdu_res = odr.create_searchResponse(apdu_req, error,
                                                  wrb_addinfo.c_str_null());
             package.response() = apdu_res;
+            ZOOM_query_destroy(q);
             return;
         }
         ZOOM_query_cql(q, wrb_cql.c_str());
@@ -2837,9 +2840,11 @@ void yf::Zoom::Frontend::auth(mp::Package &package, Z_InitRequest *req,
     if (!ptr)
     {
         *error = failure_code;
+        xmlFreeDoc(doc);
         return;
     }
     session_realm = mp::xml::get_text(ptr);
+    xmlFreeDoc(doc);
 }
 
 void yf::Zoom::Impl::process(mp::Package &package)
-- 
2.43.0


From e2b33ef9a8df7c7e208f8c04820b116b2e0d82d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 89/89] fix: zoom: schema and facets of an earlier request were
 used for later ones

---
 src/filter_zoom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 52d3bfa..3b26b97 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -393,6 +393,8 @@ void yf::Zoom::Backend::search(ZOOM_query q, Odr_int *hits,
         set_option("facets", wrbuf_cstr(w));
         wrbuf_destroy(w);
     }
+    else
+        set_option("facets", (const char *) 0);
     m_resultset = ZOOM_connection_search(m_connection, q);
     get_zoom_error(error, addinfo, odr);
     if (*error == 0)
@@ -1734,7 +1736,7 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
     }
 
     b->set_option("elementSetName", element_set_name);
-    if (b->sptr->sru.length() && element_set_name)
+    if (b->sptr->sru.length())
         b->set_option("schema", element_set_name);
 }
 
-- 
2.43.0

