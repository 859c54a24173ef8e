From cb9bd231f5c5701a1e9a0b05706434c40ba93a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:36 +0000
Subject: [PATCH 01/77] fix: present_chunk: response carries reference ID and
 next position

---
 src/filter_present_chunk.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b67290c..1673807 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -98,6 +98,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     Odr_int total = *pr->numberOfRecordsRequested;
     Odr_int start = *pr->resultSetStartPoint;
     Odr_int offset = 0;
+    Odr_int next_position = 0;
     Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
         odr_malloc(odr, sizeof(*npl));
     npl->num_records = total;
@@ -143,6 +144,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                         nprl->records[i], o->mem);
                 }
                 offset += nprl->num_records;
+                next_position = *pres->nextResultSetPosition;
             }
             else
             {
@@ -159,7 +161,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
     yaz_log(YLOG_LOG, "building response . %lld", offset);
 
-    Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
+    Z_APDU *a = odr.create_presentResponse(apdu, 0, 0);
     Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
@@ -167,6 +169,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     pres->records->u.databaseOrSurDiagnostics = npl;
     npl->num_records = offset;
     *pres->numberOfRecordsReturned = offset;
+    *pres->nextResultSetPosition = next_position;
 
     package.response() = a;
 }
-- 
2.43.0


From 6daf75a3b29e596ee6e4d21603c1fcf66119a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:36 +0000
Subject: [PATCH 02/77] fix: present_chunk: pass on the response when the
 session is closed

---
 src/filter_present_chunk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index 1673807..ec56715 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -122,6 +122,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
         if (pp.session().is_closed())
         {
+            package.response() = pp.response();
             package.session().close();
             return;
         }
-- 
2.43.0


From a668bde60e5cf7cc2ac832082774da98198702b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:36 +0000
Subject: [PATCH 03/77] fix: present_chunk: do not trust record counts of
 client and backend

---
 src/filter_present_chunk.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index ec56715..6e9796d 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -20,6 +20,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include "filter_present_chunk.hpp"
 
 #include <time.h>
+#include <algorithm>
+#include <vector>
 #include <yaz/log.h>
 #include <yaz/copy_types.h>
 #include <metaproxy/package.hpp>
@@ -101,9 +103,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     Odr_int next_position = 0;
     Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
         odr_malloc(odr, sizeof(*npl));
-    npl->num_records = total;
-    npl->records = (Z_NamePlusRecord **)
-        odr_malloc(odr, sizeof(*npl->records) * total);
+    std::vector<Z_NamePlusRecord *> records;
     while (offset < total)
     {
         Odr_int left = total - offset;
@@ -138,13 +138,20 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                 Z_NamePlusRecordList *nprl =
                     pres->records->u.databaseOrSurDiagnostics;
                 int i;
-                for (i = 0; i < nprl->num_records; i++)
+                for (i = 0; i < nprl->num_records && i < left; i++)
                 {
                     ODR o = odr;
-                    npl->records[offset+i] = yaz_clone_z_NamePlusRecord(
-                        nprl->records[i], o->mem);
+                    records.push_back(yaz_clone_z_NamePlusRecord(
+                                          nprl->records[i], o->mem));
+                }
+                if (i == 0 && offset > 0)
+                    break;
+                if (i == 0)
+                {
+                    package.response() = pp.response();
+                    return;
                 }
-                offset += nprl->num_records;
+                offset += i;
                 next_position = *pres->nextResultSetPosition;
             }
             else
@@ -169,8 +176,13 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     pres->records->which = Z_Records_DBOSD;
     pres->records->u.databaseOrSurDiagnostics = npl;
     npl->num_records = offset;
+    npl->records = (Z_NamePlusRecord **)
+        odr_malloc(odr, sizeof(*npl->records) * offset);
+    std::copy(records.begin(), records.end(), npl->records);
     *pres->numberOfRecordsReturned = offset;
     *pres->nextResultSetPosition = next_position;
+    if (offset < total)
+        *pres->presentStatus = Z_PresentStatus_partial_4;
 
     package.response() = a;
 }
@@ -181,7 +193,8 @@ void yf::PresentChunk::Impl::process(mp::Package &package)
     if (gdu && gdu->which == Z_GDU_Z3950)
     {
         Z_APDU *apdu = gdu->u.z3950;
-        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0)
+        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0
+            && *apdu->u.presentRequest->numberOfRecordsRequested > 0)
             chunk_it(package, apdu);
         else
             package.move();
-- 
2.43.0


From de827f0b03cc402a295282c4d66c133ae0e490e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 04/77] fix: frontend_net: send the close package after all
 requests of the session

A close package put in the queue while a request of the session was being
processed could overtake it. A filter such as z3950_client then created
its state for a session that was already gone and kept it forever.
---
 src/filter_frontend_net.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 96922ec..cbee957 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -125,6 +125,7 @@ namespace metaproxy_1 {
                         Rep *rep,
                         yazpp_1::LimitConnect &limit,
                         const char *peername);
+            bool is_closed() const { return m_session.is_closed(); }
             int m_no_requests;
             Port *m_port;
         private:
@@ -288,7 +289,8 @@ void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
         m_package->session().close();
     }
 
-    if (m_assoc_child->m_no_requests == 0 && m_package->session().is_closed())
+    if (m_assoc_child->m_no_requests == 0 &&
+        (m_package->session().is_closed() || m_assoc_child->is_closed()))
     {
         m_assoc_child->close();
     }
@@ -504,22 +506,27 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
 
 void yf::FrontendNet::ZAssocChild::failNotify()
 {
-    // TODO: send Package to signal "close"
-    if (m_session.is_closed())
+    if (!m_session.is_closed())
     {
-        if (m_no_requests == 0)
-            delete this;
-	return;
+        m_session.close();
+        m_thread_pool_observer->cleanup(0, &m_session);
+    }
+    // wait for requests being processed: the package that signals "close"
+    // must be the last one that filters see for the session
+    if (m_no_requests > 0)
+        return;
+    if (m_delete_flag)
+    {
+        delete this;
+        return;
     }
+    m_delete_flag = true;
     m_no_requests++;
 
-    m_session.close();
-
     mp::Package *p = new mp::Package(m_session, m_origin);
 
     ThreadPoolPackage *tp = new ThreadPoolPackage(p, this, m_p);
     p->copy_route(*m_package);
-    m_thread_pool_observer->cleanup(tp, &m_session);
     m_thread_pool_observer->put(tp);
 }
 
-- 
2.43.0


From 9aeb7859537429e99d6598d2dfc40eb2c611f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:18 +0000
Subject: [PATCH 05/77] fix: frontend_net: do not free a session with requests
 still in the pool

---
 src/filter_frontend_net.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index cbee957..a8ce475 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -452,7 +452,8 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
         {
             report(hreq);
             delete p;
-            delete this;
+            m_no_requests--;
+            close();
             return;
         }
     }
@@ -494,7 +495,8 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
                 int len;
                 send_GDU(gdu_res, &len);
                 delete p;
-                delete this;
+                m_no_requests--;
+                close();
                 return;
             }
         }
-- 
2.43.0


From 55e5cf4a00d6ce07cb2d39d3b48e3c0f6649412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 06/77] fix: frontend_net: notice a signal that arrives just
 before waiting for events

---
 src/filter_frontend_net.cpp | 66 +++++++++++++++++++++++++++++++++++--
 src/filter_frontend_net.hpp |  1 +
 2 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index a8ce475..0d0fe6d 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -39,7 +39,11 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <yaz/malloc_info.h>
 #include "gduutil.hpp"
 #include <signal.h>
+#include <errno.h>
 #include <stdlib.h>
+#if HAVE_UNISTD_H
+#include <unistd.h>
+#endif
 #include <iostream>
 
 namespace mp = metaproxy_1;
@@ -99,7 +103,8 @@ namespace metaproxy_1 {
             double m_duration_max;
             double m_duration_min;
             double m_duration_total;
-            int m_stop_signo;
+            volatile int m_stop_signo;
+            volatile int m_stop_fd;
             PeerStat m_peerStat;
         public:
             Rep();
@@ -115,6 +120,17 @@ namespace metaproxy_1 {
             void socketNotify(int event);
             bool timeout();
         };
+        // wakes up the socket manager when a signal has been received
+        class FrontendNet::Stop_Observer : public yazpp_1::ISocketObserver {
+        private:
+            yazpp_1::ISocketObservable *m_obs;
+            Pipe m_pipe;
+        public:
+            Stop_Observer(yazpp_1::ISocketObservable *obs);
+            ~Stop_Observer();
+            void socketNotify(int event);
+            int write_fd();
+        };
         class FrontendNet::ZAssocChild : public yazpp_1::Z_Assoc {
         public:
             ~ZAssocChild();
@@ -676,6 +692,7 @@ yf::FrontendNet::Rep::Rep()
     m_duration_min = 0.0;
     m_duration_total = 0.0;
     m_stop_signo = 0;
+    m_stop_fd = -1;
 }
 
 yf::FrontendNet::Rep::~Rep()
@@ -697,7 +714,19 @@ yf::FrontendNet::~FrontendNet()
 
 void yf::FrontendNet::stop(int signo) const
 {
+    // called from a signal handler: the thread of process() may be about to
+    // wait for events, so setting the flag alone does not make it look at it
     m_p->m_stop_signo = signo;
+#ifndef WIN32
+    int fd = m_p->m_stop_fd;
+    if (fd != -1)
+    {
+        int e = errno;
+        ssize_t r = write(fd, "", 1);
+        (void) r;
+        errno = e;
+    }
+#endif
 }
 
 void yf::FrontendNet::start() const
@@ -731,12 +760,43 @@ void yf::FrontendNet::My_Timer_Thread::socketNotify(int event)
     m_obs->deleteObserver(this);
 }
 
+yf::FrontendNet::Stop_Observer::Stop_Observer(
+    yazpp_1::ISocketObservable *obs) : m_obs(obs), m_pipe(9123)
+{
+    obs->addObserver(m_pipe.read_fd(), this);
+    obs->maskObserver(this, yazpp_1::SOCKET_OBSERVE_READ);
+}
+
+yf::FrontendNet::Stop_Observer::~Stop_Observer()
+{
+    m_obs->deleteObserver(this);
+}
+
+void yf::FrontendNet::Stop_Observer::socketNotify(int event)
+{
+#ifndef WIN32
+    char buf[1];
+    ssize_t r = read(m_pipe.read_fd(), buf, 1);
+    (void) r;
+#endif
+}
+
+int yf::FrontendNet::Stop_Observer::write_fd()
+{
+    return m_pipe.write_fd();
+}
+
 void yf::FrontendNet::process(mp::Package &package) const
 {
     if (m_p->az == 0)
         return;
     size_t i;
     My_Timer_Thread *tt = 0;
+    Stop_Observer *so = new Stop_Observer(&m_p->mySocketManager);
+
+    m_p->m_stop_fd = so->write_fd();
+    if (m_p->m_stop_signo) // got signal already
+        stop(m_p->m_stop_signo);
 
     if (m_p->m_listen_duration)
         tt = new My_Timer_Thread(&m_p->mySocketManager,
@@ -785,13 +845,15 @@ void yf::FrontendNet::process(mp::Package &package) const
         }
 #endif
         int no = m_p->mySocketManager.getNumberOfObservers();
-        if (no <= 1)
+        if (no <= 2) // only so and tp remain
             break;
 	if (tt && tt->timeout())
 	    break;
     }
+    m_p->m_stop_fd = -1;
     delete tp;
     delete tt;
+    delete so;
 }
 
 void yf::FrontendNet::configure(const xmlNode * ptr, bool test_only,
diff --git a/src/filter_frontend_net.hpp b/src/filter_frontend_net.hpp
index cde4399..8f2daab 100644
--- a/src/filter_frontend_net.hpp
+++ b/src/filter_frontend_net.hpp
@@ -37,6 +37,7 @@ namespace metaproxy_1 {
             class ZAssocChild;
             class ThreadPoolPackage;
             class My_Timer_Thread;
+            class Stop_Observer;
             boost::scoped_ptr<Rep> m_p;
         public:
             FrontendNet();
-- 
2.43.0


From 612c774297b5355746992a94e348b6c4d7309615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 07/77] fix: do not destroy the router with threads running
 after SIGTERM; set router before handlers

---
 src/metaproxy_prog.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index fd0302a..e71e416 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -88,16 +88,22 @@ static void work_common(void *data)
 #if HAVE_UNISTD_H
     process_group = getpgid(0); // save process group ID
     my_pid = getpid();
-
+#endif
+    routerp = (mp::RouterXML*) data;
+#if HAVE_UNISTD_H
     signal(SIGTERM, sig_x_handler);
     signal(SIGUSR1, sig_x_handler);
 #endif
-    routerp = (mp::RouterXML*) data;
     routerp->start();
 
     mp::Package pack;
     pack.router(*routerp).move();
     yaz_log(YLOG_LOG, "metaproxy stop");
+#if HAVE_UNISTD_H
+    // worker threads are still using the filters after SIGTERM
+    if (sig_received == SIGTERM)
+        _exit(0);
+#endif
     delete routerp;
     routerp = 0;
     _exit(0);
-- 
2.43.0


From 4e76fc4ad3aedbc404bb24ca8cbee9784f617f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:26 +0000
Subject: [PATCH 08/77] fix: router: no allocation in signal handler

---
 src/router_flexml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index dad380d..46c272e 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -522,7 +522,7 @@ void mp::RouterFleXML::stop(int signo)
     route_it = m_p->m_routes.begin();
     while (route_it != m_p->m_routes.end())
     {
-        RouterFleXML::Route route = route_it->second;
+        RouterFleXML::Route &route = route_it->second;
 
         std::list<boost::shared_ptr<const mp::filter::Base> >::iterator it;
 
-- 
2.43.0


From 802aba17442112e23107f92cfa16c8cf737cacb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:36 +0000
Subject: [PATCH 09/77] fix: session_shared: forget the failed set when a
 search is restarted

---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 8b2e304..b9556bb 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -976,6 +976,7 @@ restart:
             bc->remove_backend(found_backend);
             session_restarted = true;
             found_backend.reset();
+            found_set.reset();
             goto restart;
 
         }
@@ -1011,6 +1012,7 @@ restart:
         bc->remove_backend(found_backend);
         session_restarted = true;
         found_backend.reset();
+        found_set.reset();
         goto restart;
     }
     found_backend->m_sets.push_back(found_set);
-- 
2.43.0


From 84174176ed4cdff51102b012a4ae5f30746ab766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:36 +0000
Subject: [PATCH 10/77] fix: session_shared: wake up those waiting for a
 session that is removed

---
 src/filter_session_shared.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index b9556bb..aa9fadb 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -323,6 +323,7 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
             if (*it == b)
             {
                 it = m_backend_list.erase(it);
+                m_cond_set_ready.notify_all(); // others may wait for it
                 break;
             }
             it++;
-- 
2.43.0


From 11daf6f367df7b1ac1c2d944c466716bb5b5390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:36 +0000
Subject: [PATCH 11/77] fix: session_shared: use lists of sessions and sets
 only with lock held

---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index aa9fadb..1090f37 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -551,6 +551,7 @@ void yf::SessionShared::Rep::stat()
         for (it = m_backend_map.begin(); it != m_backend_map.end(); it++)
         {
             BackendClassPtr bc = it->second;
+            boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
             no_classes++;
             BackendInstanceList::iterator bit = bc->m_backend_list.begin();
             for (; bit != bc->m_backend_list.end(); bit++)
@@ -1016,6 +1017,7 @@ restart:
         found_set.reset();
         goto restart;
     }
+    boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
     found_backend->m_sets.push_back(found_set);
 }
 
-- 
2.43.0


From afab9dfaeff2369e730bab3f6459acc2a790f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:36 +0000
Subject: [PATCH 12/77] fix: session_shared: keep backend classes in use, so
 their sessions expire

---
 src/filter_session_shared.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 1090f37..f5e0428 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1362,7 +1362,9 @@ void yf::SessionShared::Rep::expire_classes()
     BackendClassMap::iterator b_it = m_backend_map.begin();
     while (b_it != m_backend_map.end())
     {
-        if (b_it->second->expire_instances())
+        // a class that a frontend is using must stay: it would get new
+        // sessions that never expire, next to those of a second class
+        if (b_it->second->expire_instances() && b_it->second.use_count() == 1)
         {
             m_backend_map.erase(b_it);
             b_it = m_backend_map.begin();
-- 
2.43.0


From 56395aeb38a51562da4e970158093d94b86e5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:36 +0000
Subject: [PATCH 13/77] fix: session_shared: query may refer to the result set
 it replaces

---
 src/filter_session_shared.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index f5e0428..3acd358 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1092,7 +1092,6 @@ void yf::SessionShared::Frontend::search(mp::Package &package,
             package.response() = apdu;
             return;
         }
-        m_frontend_sets.erase(fset_it);
     }
 
     Databases databases;
@@ -1123,6 +1122,9 @@ void yf::SessionShared::Frontend::search(mp::Package &package,
         }
         query.set_Z_Query(q);
     }
+    // the query may refer to the set being replaced, so erase it now only
+    if (fset_it != m_frontend_sets.end())
+        m_frontend_sets.erase(fset_it);
 
     BackendSetPtr found_set; // null
     BackendInstancePtr found_backend; // null
-- 
2.43.0


From 5efee53d3649584c5d3ab6502521c53233b68b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:36 +0000
Subject: [PATCH 14/77] fix: session_shared: session max holds for sessions
 being created, init and scan

---
 src/filter_session_shared.cpp | 38 +++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 3acd358..af2a967 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -124,6 +124,7 @@ namespace metaproxy_1 {
                                               int &code, std::string &addinfo);
             void remove_backend(BackendInstancePtr b);
             BackendInstancePtr get_backend(const Package &package,
+                                           int session_max,
                                            int &code, std::string &addinfo);
             void use_backend(BackendInstancePtr b);
             void release_backend(BackendInstancePtr b);
@@ -141,6 +142,7 @@ namespace metaproxy_1 {
             int m_no_failed;
             int m_no_succeeded;
             int m_no_init;
+            int m_no_creating; // sessions being created (for session max)
         public:
             BackendClass(const yazpp_1::GDU &init_request,
                          int resultset_ttl,
@@ -340,6 +342,7 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
 yf::SessionShared::BackendInstancePtr
 yf::SessionShared::BackendClass::get_backend(
     const mp::Package &frontend_package,
+    int session_max,
     int &code, std::string &addinfo)
 {
     {
@@ -363,6 +366,13 @@ yf::SessionShared::BackendClass::get_backend(
             use_backend(backend1);
             return backend1;
         }
+        if ((int) m_backend_list.size() + m_no_creating >= session_max)
+        {
+            code = YAZ_BIB1_TEMPORARY_SYSTEM_ERROR;
+            addinfo = "session_shared: all sessions in use";
+            return backend1;
+        }
+        m_no_creating++;
     }
     return create_backend(frontend_package, code, addinfo);
 }
@@ -439,6 +449,7 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
     init_package.move();
 
     boost::mutex::scoped_lock lock(m_mutex_backend_class);
+    m_no_creating--;
 
     addinfo.clear();
     code = 0;
@@ -466,6 +477,7 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
             bp->m_result_set_sequence = 0;
             m_backend_list.push_back(bp);
             m_no_succeeded++;
+            m_cond_set_ready.notify_all();
             return bp;
         }
         else
@@ -535,7 +547,7 @@ yf::SessionShared::BackendClass::BackendClass(const yazpp_1::GDU &init_request,
       m_backend_expiry_ttl(session_ttl), m_backend_set_max(resultset_max),
       m_preferredMessageSize(preferredMessageSize),
       m_maximumRecordSize(maximumRecordSize),
-      m_no_failed(0), m_no_succeeded(0), m_no_init(0)
+      m_no_failed(0), m_no_succeeded(0), m_no_init(0), m_no_creating(0)
 {}
 
 yf::SessionShared::BackendClass::~BackendClass()
@@ -599,15 +611,16 @@ void yf::SessionShared::Rep::init(mp::Package &package, const Z_GDU *gdu,
     bool create_first_one = false;
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
+        // wait for those being created if we can not have more
+        while (!bc->m_no_succeeded && bc->m_no_creating
+               && bc->m_no_creating >= m_session_max)
+        {
+            bc->m_cond_set_ready.wait(lock);
+        }
         if (!bc->m_no_succeeded)
-            create_first_one = true;
-        else
         {
-            // wait for first one to finish
-            while (!bc->m_no_failed && !bc->m_no_succeeded && bc->m_no_init)
-            {
-                bc->m_cond_set_ready.wait(lock);
-            }
+            create_first_one = true;
+            bc->m_no_creating++;
         }
     }
     if (create_first_one)
@@ -828,9 +841,6 @@ restart:
     {
         boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
 
-        if ((int) bc->m_backend_list.size() >= m_p->m_session_max)
-            out_of_sessions = true;
-
         if (m_p->m_optimize_search)
         {
             // look at each backend and see if we have a similar search
@@ -872,9 +882,14 @@ restart:
                     it++;
             }
         }
+        if ((int) bc->m_backend_list.size() + bc->m_no_creating
+            >= m_p->m_session_max)
+            out_of_sessions = true;
         override_set(found_backend, result_set_id, databases, out_of_sessions);
         if (found_backend)
             bc->use_backend(found_backend);
+        else if (!out_of_sessions)
+            bc->m_no_creating++;
     }
     if (!found_backend)
     {
@@ -1285,6 +1300,7 @@ void yf::SessionShared::Frontend::scan(mp::Package &frontend_package,
     int code;
     std::string addinfo;
     BackendInstancePtr backend = bc->get_backend(frontend_package,
+                                                 m_p->m_session_max,
                                                  code, addinfo);
     if (!backend)
     {
-- 
2.43.0


From 2f60f8360e53b95db06a397356e672706ef1d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:07 +0000
Subject: [PATCH 15/77] fix: multi: round-robin windows, and 64-bit result set
 positions

---
 src/filter_multi.cpp | 87 +++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 38 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5c581e5..c33da0d 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -53,7 +53,7 @@ namespace metaproxy_1 {
         };
         struct Multi::BackendSet {
             BackendPtr m_backend;
-            int m_count;
+            Odr_int m_count;
             bool operator < (const BackendSet &k) const;
             bool operator == (const BackendSet &k) const;
         };
@@ -69,17 +69,19 @@ namespace metaproxy_1 {
             class PresentJob {
             public:
                 BackendPtr m_backend;
-                int m_pos; // position for backend (1=first, 2=second,..
-                int m_start; // present request start
-                PresentJob(BackendPtr ptr, int pos) :
+                Odr_int m_pos; // position for backend (1=first, 2=second,..
+                Odr_int m_start; // present request start
+                PresentJob(BackendPtr ptr, Odr_int pos) :
                     m_backend(ptr), m_pos(pos), m_start(0) {};
             };
             FrontendSet(std::string setname);
             FrontendSet();
             ~FrontendSet();
 
-            void round_robin(int pos, int number, std::list<PresentJob> &job);
-            void serve_order(int pos, int number, std::list<PresentJob> &job);
+            void round_robin(Odr_int pos, Odr_int number,
+                             std::list<PresentJob> &job);
+            void serve_order(Odr_int pos, Odr_int number,
+                             std::list<PresentJob> &job);
 
             std::list<BackendSet> m_backend_sets;
             std::string m_setname;
@@ -272,15 +274,15 @@ void yf::Multi::Frontend::multi_move(std::list<BackendPtr> &blist)
     g.join_all();
 }
 
-void yf::Multi::FrontendSet::serve_order(int start, int number,
+void yf::Multi::FrontendSet::serve_order(Odr_int start, Odr_int number,
                                          std::list<PresentJob> &jobs)
 {
-    int i;
+    Odr_int i;
     for (i = 0; i < number; i++)
     {
         std::list<BackendSet>::const_iterator bsit;
-        int voffset = 0;
-        int offset = start + i - 1;
+        Odr_int voffset = 0;
+        Odr_int offset = start + i - 1;
         for (bsit = m_backend_sets.begin(); bsit != m_backend_sets.end();
              bsit++)
         {
@@ -295,23 +297,23 @@ void yf::Multi::FrontendSet::serve_order(int start, int number,
     }
 }
 
-void yf::Multi::FrontendSet::round_robin(int start, int number,
+void yf::Multi::FrontendSet::round_robin(Odr_int start, Odr_int number,
                                          std::list<PresentJob> &jobs)
 {
-    std::list<int> pos;
+    std::list<Odr_int> pos;
     std::list<BackendSet>::const_iterator bsit;
     for (bsit = m_backend_sets.begin(); bsit != m_backend_sets.end(); bsit++)
     {
         pos.push_back(1);
     }
 
-    int p = 1;
+    Odr_int p = 1;
 #if 1
     // optimization step!
-    int omin = 0;
+    Odr_int omin = 0;
     while(true)
     {
-        int min = 0;
+        Odr_int min = 0;
         int no_left = 0;
         // find min count for each set which is > omin
         for (bsit = m_backend_sets.begin(); bsit != m_backend_sets.end(); bsit++)
@@ -325,35 +327,37 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
         }
         if (no_left == 0) // if nothing greater than omin, bail out.
             break;
-        int skip = no_left * min;
+        // omin positions of each set are skipped already
+        Odr_int step = min - omin;
+        Odr_int skip = no_left * step;
         if (p + skip > start)  // step gets us "into" present range?
         {
             // Yes. skip until start.. Rounding off is deliberate!
-            min = (start-p) / no_left;
-            p += no_left * min;
+            step = (start-p) / no_left;
+            p += no_left * step;
 
             // update positions in each set..
-            std::list<int>::iterator psit = pos.begin();
+            std::list<Odr_int>::iterator psit = pos.begin();
             for (psit = pos.begin(); psit != pos.end(); psit++)
-                *psit += min;
+                *psit += step;
             break;
         }
         // skip on each set.. before "present range"..
         p = p + skip;
 
-        std::list<int>::iterator psit = pos.begin();
+        std::list<Odr_int>::iterator psit = pos.begin();
         for (psit = pos.begin(); psit != pos.end(); psit++)
-            *psit += min;
+            *psit += step;
 
         omin = min; // update so we consider next class (with higher count)
     }
 #endif
-    int fetched = 0;
+    Odr_int fetched = 0;
     bool more = true;
     while (more)
     {
         more = false;
-        std::list<int>::iterator psit = pos.begin();
+        std::list<Odr_int>::iterator psit = pos.begin();
         bsit = m_backend_sets.begin();
 
         for (; bsit != m_backend_sets.end(); psit++,bsit++)
@@ -778,8 +782,24 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
         return;
     }
     std::list<Multi::FrontendSet::PresentJob> jobs;
-    int start = *req->resultSetStartPoint;
-    int number = *req->numberOfRecordsRequested;
+    Odr_int start = *req->resultSetStartPoint;
+    Odr_int number = *req->numberOfRecordsRequested;
+    Odr_int total = 0;
+
+    std::list<BackendSet>::const_iterator bsit;
+    bsit = it->second.m_backend_sets.begin();
+    for (; bsit != it->second.m_backend_sets.end(); bsit++)
+        total += bsit->m_count;
+    if (start < 1 || number < 0 || number > total || start - 1 > total - number)
+    {
+        mp::odr odr;
+        package.response() =
+            odr.create_presentResponse(
+                apdu_req,
+                YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE,
+                0);
+        return;
+    }
 
     if (m_p->m_merge_type == round_robin)
         it->second.round_robin(start, number, jobs);
@@ -797,12 +817,11 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
 
     std::list<BackendPtr> present_backend_list;
 
-    std::list<BackendSet>::const_iterator bsit;
     bsit = it->second.m_backend_sets.begin();
     for (; bsit != it->second.m_backend_sets.end(); bsit++)
     {
-        int start = -1;
-        int end = -1;
+        Odr_int start = -1;
+        Odr_int end = -1;
         {
             std::list<Multi::FrontendSet::PresentJob>::const_iterator jit;
             for (jit = jobs.begin(); jit != jobs.end(); jit++)
@@ -892,14 +911,6 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
                 z_diag->diagRecs[0]->u.defaultFormat;
         }
     }
-    else if (number < 0 || (size_t) number > jobs.size())
-    {
-        f_apdu =
-            odr.create_presentResponse(
-                apdu_req,
-                YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE,
-                0);
-    }
     else
     {
         f_resp->records = (Z_Records *) odr_malloc(odr, sizeof(Z_Records));
@@ -920,7 +931,7 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
 
             Z_GDU *gdu = p->response().get();
             Z_APDU *b_apdu = gdu->u.z3950;
-            int inside_pos = jit->m_pos - jit->m_start;
+            Odr_int inside_pos = jit->m_pos - jit->m_start;
             Z_Records *records = b_apdu->u.presentResponse->records;
 
             if (records && records->which == Z_Records_DBOSD
-- 
2.43.0


From c9290249dfface713fec05306d8e21671f254f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:07 +0000
Subject: [PATCH 16/77] fix: multi: scan trusted number of terms and position
 of the client

---
 src/filter_multi.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index c33da0d..15ac029 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1069,7 +1069,7 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
             {
                 Z_Entry **entries = res->entries->entries;
                 int num_entries = res->entries->num_entries;
-                int position = 1;
+                Odr_int position = 1;
                 if (req->preferredPositionInResponse)
                     position = *req->preferredPositionInResponse;
                 if (res->positionOfTerm)
@@ -1194,17 +1194,29 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         Z_APDU *f_apdu = odr.create_scanResponse(apdu_req, 0, 0);
         Z_ScanResponse *resp = f_apdu->u.scanResponse;
 
-        int number_returned = *req->numberOfTermsRequested;
-        int position_returned = *req->preferredPositionInResponse;
+        // do not trust the numbers given by the client
+        Odr_int number_max = entries_before.size() + entries_after.size();
+        Odr_int number_returned = *req->numberOfTermsRequested;
+        if (number_returned < 0)
+            number_returned = 0;
+        if (number_returned > number_max)
+            number_returned = number_max;
+
+        Odr_int position_returned = 1;
+        if (req->preferredPositionInResponse)
+            position_returned = *req->preferredPositionInResponse;
+        if (position_returned < 0)
+            position_returned = 0;
+        Odr_int lbefore = entries_before.size();
+        if (lbefore < position_returned-1)
+            position_returned = lbefore+1;
+        if (position_returned > number_returned + 1)
+            position_returned = number_returned + 1;
 
         resp->entries->num_entries = number_returned;
         resp->entries->entries = (Z_Entry**)
-            odr_malloc(odr, sizeof(Z_Entry*) * number_returned);
-        int i;
-
-        int lbefore = entries_before.size();
-        if (lbefore < position_returned-1)
-            position_returned = lbefore+1;
+            odr_malloc(odr, sizeof(Z_Entry*) * (number_returned + 1));
+        Odr_int i;
 
         ScanTermInfoList::iterator it = entries_before.begin();
         for (i = 0; i<position_returned-1 && it != entries_before.end(); i++, it++)
-- 
2.43.0


From a7db5e72601750a8299479f8cb98a91fa8497836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 17/77] fix: multi: targets that are lost, answer with
 something else or less

A response that was not the expected one was ignored for search (fewer
hits without notice), relayed for scan (wrong response type) and used as
if it were a present response (crash). Targets rejecting init stayed in
the session with hideunavailable. Records of other targets took the
position of missing ones. hideunavailable and hideerrors now hold for
scan too.
---
 src/filter_multi.cpp | 240 ++++++++++++++++++++++++++++---------------
 1 file changed, 157 insertions(+), 83 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 15ac029..f7d03dc 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -93,6 +93,8 @@ namespace metaproxy_1 {
             std::string m_route;
             std::string m_auth;
             void operator() (void);  // thread operation
+            Z_APDU *get_response(int which);
+            void close(Package &package);
         };
         struct Multi::Frontend {
             Frontend(Rep *rep);
@@ -109,6 +111,9 @@ namespace metaproxy_1 {
             void present(Package &package, Z_APDU *apdu);
             void scan(Package &package, Z_APDU *apdu);
             void relay_apdu(Package &package, Z_APDU *apdu);
+            void drop(Package &package, std::list<BackendPtr> &lost);
+            void close_session(Package &package, Z_APDU *apdu_req,
+                               PackagePtr close_p);
             void record_diagnostics(Z_Records *records, 
                                     Z_DiagRecs * &z_diag,
                                     ODR odr,
@@ -249,17 +254,62 @@ void yf::Multi::Backend::operator() (void)
 }
 
 
+// returns response APDU if it is of the given type; 0 otherwise
+Z_APDU *yf::Multi::Backend::get_response(int which)
+{
+    Z_GDU *gdu = m_package->response().get();
+    if (gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which == which)
+        return gdu->u.z3950;
+    return 0;
+}
+
+void yf::Multi::Backend::close(mp::Package &package)
+{
+    m_package->copy_filter(package);
+    m_package->request() = (Z_GDU *) 0;
+    m_package->session().close();
+    m_package->move(m_route);
+}
+
 void yf::Multi::Frontend::close(mp::Package &package)
 {
     std::list<BackendPtr>::const_iterator bit;
     for (bit = m_backend_list.begin(); bit != m_backend_list.end(); bit++)
+        (*bit)->close(package);
+}
+
+// close lost targets and go on without them if that is what hideunavailable
+// says. Otherwise the session fails when they are needed.
+void yf::Multi::Frontend::drop(mp::Package &package,
+                               std::list<BackendPtr> &lost)
+{
+    std::list<BackendPtr>::const_iterator bit;
+    for (bit = lost.begin(); bit != lost.end(); bit++)
     {
-        BackendPtr b = *bit;
+        (*bit)->close(package);
+        if (m_p->m_hide_unavailable)
+            m_backend_list.remove(*bit);
+    }
+}
 
-        b->m_package->copy_filter(package);
-        b->m_package->request() = (Z_GDU *) 0;
-        b->m_package->session().close();
-        b->m_package->move(b->m_route);
+// close session because of close_p (may be unset)
+void yf::Multi::Frontend::close_session(mp::Package &package,
+                                        Z_APDU *apdu_req, PackagePtr close_p)
+{
+    Z_GDU *gdu = close_p ? close_p->response().get() : 0;
+
+    package.session().close();
+    if (gdu && gdu->which == Z_GDU_Z3950 &&
+        (gdu->u.z3950->which == Z_APDU_close
+         || close_p->session().is_closed()))
+    {
+        package.response() = close_p->response();
+    }
+    else
+    {
+        mp::odr odr;
+        package.response() = odr.create_close(
+            apdu_req, Z_Close_systemProblem, "target failed");
     }
 }
 
@@ -491,6 +541,7 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
 
     Odr_int preferredMessageSize = *req->preferredMessageSize;
     Odr_int maximumRecordSize = *req->maximumRecordSize;
+    std::list<BackendPtr> lost;
     for (bit = m_backend_list.begin(); bit != m_backend_list.end(); )
     {
         PackagePtr p = (*bit)->m_package;
@@ -502,13 +553,11 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
             bit = m_backend_list.erase(bit);
             continue;
         }
-        Z_GDU *gdu = p->response().get();
-        if (gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which ==
-            Z_APDU_initResponse)
+        Z_APDU *b_apdu = (*bit)->get_response(Z_APDU_initResponse);
+        Z_InitResponse *b_resp = b_apdu ? b_apdu->u.initResponse : 0;
+        if (b_resp && *b_resp->result)
         {
             int i;
-            Z_APDU *b_apdu = gdu->u.z3950;
-            Z_InitResponse *b_resp = b_apdu->u.initResponse;
 
             // common options for all backends
             for (i = 0; i <= Z_Options_stringSchema; i++)
@@ -520,24 +569,20 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
             for (i = 0; i <= Z_ProtocolVersion_3; i++)
                 if (!ODR_MASK_GET(b_resp->protocolVersion, i))
                     ODR_MASK_CLEAR(f_resp->protocolVersion, i);
-            if (*b_resp->result)
-            {
-                no_succeeded++;
-                if (preferredMessageSize > *b_resp->preferredMessageSize)
-                    preferredMessageSize = *b_resp->preferredMessageSize;
-                if (maximumRecordSize > *b_resp->maximumRecordSize)
-                    maximumRecordSize = *b_resp->maximumRecordSize;
-            }
-            else
-            {
-                if (!f_resp->userInformationField
-                    && b_resp->userInformationField)
-                    f_resp->userInformationField = b_resp->userInformationField;
-                no_failed++;
-            }
+            no_succeeded++;
+            if (preferredMessageSize > *b_resp->preferredMessageSize)
+                preferredMessageSize = *b_resp->preferredMessageSize;
+            if (maximumRecordSize > *b_resp->maximumRecordSize)
+                maximumRecordSize = *b_resp->maximumRecordSize;
         }
         else
+        {
+            if (b_resp && !f_resp->userInformationField
+                && b_resp->userInformationField)
+                f_resp->userInformationField = b_resp->userInformationField;
             no_failed++;
+            lost.push_back(*bit);
+        }
         bit++;
     }
     *f_resp->preferredMessageSize = preferredMessageSize;
@@ -560,6 +605,7 @@ void yf::Multi::Frontend::init(mp::Package &package, Z_GDU *gdu)
         }
     }
     package.response() = f_apdu;
+    drop(package, lost);
 }
 
 void yf::Multi::Frontend::record_diagnostics(Z_Records *records, 
@@ -661,20 +707,21 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     Z_DiagRecs *z_diag = 0;
     int no_successful = 0;
     PackagePtr close_p;
+    std::list<BackendPtr> lost;
 
     for (bit = m_backend_list.begin(); bit != m_backend_list.end(); bit++)
     {
         PackagePtr p = (*bit)->m_package;
 
         // save closing package for at least one target
-        if (p->session().is_closed())
+        Z_APDU *b_apdu = (*bit)->get_response(Z_APDU_searchResponse);
+        if (!b_apdu || p->session().is_closed())
+        {
             close_p = p;
-
-        Z_GDU *gdu = p->response().get();
-        if (gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which ==
-            Z_APDU_searchResponse)
+            lost.push_back(*bit);
+        }
+        if (b_apdu)
         {
-            Z_APDU *b_apdu = gdu->u.z3950;
             Z_SearchResponse *b_resp = b_apdu->u.searchResponse;
 
             record_diagnostics(b_resp->records, z_diag, odr, no_successful);
@@ -682,7 +729,9 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
             BackendSet backendSet;
             backendSet.m_backend = *bit;
             backendSet.m_count = *b_resp->resultCount;
-            result_set_size += *b_resp->resultCount;
+            if (backendSet.m_count < 0)
+                backendSet.m_count = 0;
+            result_set_size += backendSet.m_count;
             resultSet.m_backend_sets.push_back(backendSet);
         }
     }
@@ -695,12 +744,13 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
             close_p ? "true" : "false",
             m_p->m_hide_errors ? "true" : "false");
     *f_resp->resultCount = result_set_size;
-    if (close_p && (no_successful == 0 || !m_p->m_hide_unavailable))
+    if (m_backend_list.size() == lost.size() ||
+        (close_p && (no_successful == 0 || !m_p->m_hide_unavailable)))
     {
-        package.session().close();
-        package.response() = close_p->response();
+        close_session(package, apdu_req, close_p);
         return;
     }
+    drop(package, lost);
     if (z_diag && (no_successful == 0 || !m_p->m_hide_errors))
     {
         f_resp->records = (Z_Records *)
@@ -865,21 +915,23 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
     int no_successful = 0;
     mp::odr odr;
     PackagePtr close_p;
+    std::list<BackendPtr> lost;
 
     std::list<BackendPtr>::const_iterator pbit = present_backend_list.begin();
     for (; pbit != present_backend_list.end(); pbit++)
     {
         PackagePtr p = (*pbit)->m_package;
+        Z_APDU *b_apdu = (*pbit)->get_response(Z_APDU_presentResponse);
 
         // save closing package for at least one target
-        if (p->session().is_closed())
+        if (!b_apdu || p->session().is_closed())
+        {
             close_p = p;
+            lost.push_back(*pbit);
+        }
 
-        Z_GDU *gdu = p->response().get();
-        if (gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which ==
-            Z_APDU_presentResponse)
+        if (b_apdu)
         {
-            Z_APDU *b_apdu = gdu->u.z3950;
             Z_PresentResponse *b_resp = b_apdu->u.presentResponse;
 
             record_diagnostics(b_resp->records, z_diag, odr, no_successful);
@@ -891,8 +943,7 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
 
     if (close_p && (no_successful == 0 || !m_p->m_hide_errors))
     {
-        package.session().close();
-        package.response() = close_p->response();
+        close_session(package, apdu_req, close_p);
         return;
     }
     if (z_diag && (no_successful == 0 || !m_p->m_hide_errors))
@@ -910,6 +961,7 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
             f_resp->records->u.nonSurrogateDiagnostic =
                 z_diag->diagRecs[0]->u.defaultFormat;
         }
+        *f_resp->presentStatus = Z_PresentStatus_failure;
     }
     else
     {
@@ -924,34 +976,41 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
         nprl->records = (Z_NamePlusRecord**)
             odr_malloc(odr, sizeof(Z_NamePlusRecord *) * nprl->num_records);
         int i = 0;
+        Odr_int next = start;
         std::list<Multi::FrontendSet::PresentJob>::const_iterator jit;
-        for (jit = jobs.begin(); jit != jobs.end(); jit++)
+        for (jit = jobs.begin(); jit != jobs.end(); jit++, next++)
         {
-            PackagePtr p = jit->m_backend->m_package;
-
-            Z_GDU *gdu = p->response().get();
-            Z_APDU *b_apdu = gdu->u.z3950;
+            Z_APDU *b_apdu =
+                jit->m_backend->get_response(Z_APDU_presentResponse);
             Odr_int inside_pos = jit->m_pos - jit->m_start;
-            Z_Records *records = b_apdu->u.presentResponse->records;
+            Z_Records *records =
+                b_apdu ? b_apdu->u.presentResponse->records : 0;
 
-            if (records && records->which == Z_Records_DBOSD
-                && inside_pos < 
+            if (!b_apdu || (records && records->which != Z_Records_DBOSD))
+                continue; // failed and hidden
+            if (!records || inside_pos >=
                 records->u.databaseOrSurDiagnostics->num_records)
             {
-                nprl->records[i] = (Z_NamePlusRecord*)
-                    odr_malloc(odr, sizeof(Z_NamePlusRecord));
-                *nprl->records[i] = *records->
-                    u.databaseOrSurDiagnostics->records[inside_pos];
-                nprl->records[i]->databaseName =
-                    odr_strdup(odr, jit->m_backend->m_vhost.c_str());
-                i++;
+                // target has more, but did not return it. And records
+                // following it must not take its position
+                *f_resp->presentStatus =
+                    *b_apdu->u.presentResponse->presentStatus;
+                break;
             }
+            nprl->records[i] = (Z_NamePlusRecord*)
+                odr_malloc(odr, sizeof(Z_NamePlusRecord));
+            *nprl->records[i] = *records->
+                u.databaseOrSurDiagnostics->records[inside_pos];
+            nprl->records[i]->databaseName =
+                odr_strdup(odr, jit->m_backend->m_vhost.c_str());
+            i++;
         }
         nprl->num_records = i; // usually same as jobs.size();
-        *f_resp->nextResultSetPosition = start + i;
+        *f_resp->nextResultSetPosition = next;
         *f_resp->numberOfRecordsReturned = i;
     }
     package.response() = f_apdu;
+    drop(package, lost);
 }
 
 bool yf::Multi::ScanTermInfo::operator < (const ScanTermInfo &k) const
@@ -1035,35 +1094,31 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
     ScanTermInfoList entries_after;
     int no_before = 0;
     int no_after = 0;
+    int no_successful = 0;
+    PackagePtr close_p, diag_p;
+    std::list<BackendPtr> lost;
 
     for (bit = m_backend_list.begin(); bit != m_backend_list.end(); bit++)
     {
         PackagePtr p = (*bit)->m_package;
+        Z_APDU *b_apdu = (*bit)->get_response(Z_APDU_scanResponse);
 
-        if (p->session().is_closed()) // if any backend closes, close frontend
-            package.session().close();
-
-        Z_GDU *gdu = p->response().get();
-        if (gdu && gdu->which == Z_GDU_Z3950 && gdu->u.z3950->which ==
-            Z_APDU_scanResponse)
+        if (!b_apdu || p->session().is_closed())
         {
-            Z_ScanResponse *res = gdu->u.z3950->u.scanResponse;
+            close_p = p;
+            lost.push_back(*bit);
+        }
+        if (b_apdu)
+        {
+            Z_ScanResponse *res = b_apdu->u.scanResponse;
 
             if (res->entries && res->entries->nonsurrogateDiagnostics)
             {
-                // failure
-                mp::odr odr;
-                Z_APDU *f_apdu = odr.create_scanResponse(apdu_req, 1, 0);
-                Z_ScanResponse *f_res = f_apdu->u.scanResponse;
-
-                f_res->entries->nonsurrogateDiagnostics =
-                    res->entries->nonsurrogateDiagnostics;
-                f_res->entries->num_nonsurrogateDiagnostics =
-                    res->entries->num_nonsurrogateDiagnostics;
-
-                package.response() = f_apdu;
-                return;
+                if (!diag_p)
+                    diag_p = p;
+                continue;
             }
+            no_successful++;
 
             if (res->entries && res->entries->entries)
             {
@@ -1157,13 +1212,32 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
 
             }
         }
-        else
-        {
-            // if any target does not return scan response - return that
-            package.response() = p->response();
-            return;
-        }
     }
+    if (m_backend_list.size() == lost.size() ||
+        (close_p && (no_successful == 0 || !m_p->m_hide_unavailable)))
+    {
+        close_session(package, apdu_req, close_p);
+        return;
+    }
+    if (diag_p && (no_successful == 0 || !m_p->m_hide_errors))
+    {
+        // failure
+        mp::odr odr;
+        Z_APDU *f_apdu = odr.create_scanResponse(apdu_req, 1, 0);
+        Z_ScanResponse *f_res = f_apdu->u.scanResponse;
+        Z_ScanResponse *res =
+            diag_p->response().get()->u.z3950->u.scanResponse;
+
+        f_res->entries->nonsurrogateDiagnostics =
+            res->entries->nonsurrogateDiagnostics;
+        f_res->entries->num_nonsurrogateDiagnostics =
+            res->entries->num_nonsurrogateDiagnostics;
+
+        package.response() = f_apdu;
+        drop(package, lost);
+        return;
+    }
+    drop(package, lost);
 
     if (false)
     {
-- 
2.43.0


From 22f78c09e9761a04abeba0a445e81dbfc619f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:19 +0000
Subject: [PATCH 18/77] fix: virt_db: search overwrote the result set of a
 target without named result sets

When a set was replaced, any backend session for the database was used,
also one that held another result set; that set then returned records of
the new one.
---
 src/filter_virt_db.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index de7f09a..152c3a9 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -85,6 +85,7 @@ namespace metaproxy_1 {
             void close(Package &package);
             typedef std::map<std::string,VirtualDB::Set>::iterator Sets_it;
 
+            bool in_use(BackendPtr b, const std::string &setname);
             void fixup_package(Package &p, BackendPtr b);
             void fixup_npr_record(ODR odr, Z_NamePlusRecord *npr,
                                   BackendPtr b);
@@ -259,6 +260,16 @@ yf::VirtualDB::BackendPtr yf::VirtualDB::Frontend::init_backend(
     return null;
 }
 
+// whether backend holds other result set than the one given
+bool yf::VirtualDB::Frontend::in_use(BackendPtr b, const std::string &setname)
+{
+    Sets_it it = m_sets.begin();
+    for (; it != m_sets.end(); it++)
+        if (it->first != setname && it->second.m_backend == b)
+            return true;
+    return false;
+}
+
 void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
 {
     yazpp_1::GDU ngdu(apdu_req);
@@ -273,7 +284,6 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         databases.push_back(req->databaseNames[i]);
 
     Sets_it sets_it = m_sets.find(req->resultSetName);
-    bool override_set = false;
     if (sets_it != m_sets.end())
     {
         // result set already exist
@@ -290,10 +300,9 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
 
             return;
         }
-        override_set = true;
     }
     // pick up any existing database with named result sets ..
-    // or one if we are overriding it
+    // or one that does not hold another result set
     BackendPtr b; // null for now
     std::list<BackendPtr>::const_iterator map_it;
     map_it = m_backend_list.begin();
@@ -301,7 +310,7 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         BackendPtr tmp = *map_it;
         if (mp::util::match(tmp->m_frontend_databases, databases) &&
-            (tmp->m_named_result_sets || override_set))
+            (tmp->m_named_result_sets || !in_use(tmp, resultSetId)))
         {
             b = *map_it;
             break;
-- 
2.43.0


From cad2acec8c617157db94b74a1a4f23acc2936c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 19/77] fix: load_balance: statistics of a target dropped when
 one of its sessions ended

---
 src/filter_load_balance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 05bc3d4..1d46269 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -398,7 +398,7 @@ void yf::LoadBalance::Impl::remove_session(mp::Package &package)
     if (itarg->second.sessions > 0)
         itarg->second.sessions -= 1;
 
-    if (itarg->second.sessions == 0 || itarg->second.deads == 0)
+    if (itarg->second.sessions == 0 && itarg->second.deads == 0)
         m_target_stat.erase(itarg);
 }
 
-- 
2.43.0


From 9677285b8c87d5a78b1da5604810e25d0aa68d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 20/77] fix: load_balance: second init of a session counted as
 another session

---
 src/filter_load_balance.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 1d46269..ea621e2 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -135,8 +135,14 @@ void yf::LoadBalance::Impl::process(mp::Package &package)
     // passing anything but z3950 packages
     if (gdu_req && gdu_req->which == Z_GDU_Z3950)
     {
-        // target selecting only on Z39.50 init request
-        if (gdu_req->u.z3950->which == Z_APDU_initRequest)
+        // target selecting only on first Z39.50 init request
+        bool has_target;
+        {
+            boost::mutex::scoped_lock scoped_lock(m_mutex);
+            has_target =
+                find_session_target(package.session().id()).size() != 0;
+        }
+        if (gdu_req->u.z3950->which == Z_APDU_initRequest && !has_target)
         {
             yazpp_1::GDU base_req(gdu_req);
             Z_APDU *apdu = base_req.get()->u.z3950;
-- 
2.43.0


From cc95995e7ad82a162097d5cfb7d5b353d5390678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:15 +0000
Subject: [PATCH 21/77] fix: auth_simple: target register not consulted when
 there is a user register

---
 src/filter_auth_simple.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 2948e33..6d3fca8 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -289,6 +289,8 @@ void yf::AuthSimple::process_init(mp::Package &package) const
                 boost::mutex::scoped_lock lock(m_p->mutex);
                 m_p->userBySession[package.session()] = user;
             }
+            if (m_p->got_targetRegister)
+                return check_targets(package);
             return package.move();
         }
     }
-- 
2.43.0


From c755e8439419e90d44490fa95e44247e5d6d00ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:21 +0000
Subject: [PATCH 22/77] fix: auth_simple: session and target maps used by
 several threads without a lock

---
 src/filter_auth_simple.cpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 6d3fca8..6345cfd 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -316,12 +316,23 @@ void yf::AuthSimple::process_search(mp::Package &package) const
     Z_SearchRequest *req =
         package.request().get()->u.z3950->u.searchRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    bool authenticated = false;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end())
+        {
+            user = it->second;
+            authenticated = true;
+        }
+    }
+    if (!authenticated) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -348,12 +359,23 @@ void yf::AuthSimple::process_scan(mp::Package &package) const
     Z_ScanRequest *req =
         package.request().get()->u.z3950->u.scanRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    bool authenticated = false;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end())
+        {
+            user = it->second;
+            authenticated = true;
+        }
+    }
+    if (!authenticated) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -393,7 +415,12 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
 
     std::string password;
     std::string user = get_user(initReq, password);
-    std::list<std::string> authorisedTargets = m_p->targetsByUser[user];
+    std::list<std::string> authorisedTargets;
+    // shared by all sessions: must not insert unknown users here
+    std::map<std::string, std::list<std::string> >::const_iterator it =
+        m_p->targetsByUser.find(user);
+    if (it != m_p->targetsByUser.end())
+        authorisedTargets = it->second;
 
     std::list<std::string> targets;
     Z_OtherInformation **otherInfo = &initReq->otherInfo;
-- 
2.43.0


From f9cef14b4c31f0b95865ed369ddbb7623fe4ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:08 +0000
Subject: [PATCH 23/77] fix: sort: records of one element set returned for
 another

---
 src/filter_sort.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 02ae667..ae2f921 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -74,18 +74,20 @@ namespace metaproxy_1 {
         };
         class Sort::RecordList : boost::noncopyable {
             Odr_oid *syntax;
+            std::string esn;
             std::list<Record> npr_list;
             mp::odr m_odr;
             std::string namespaces;
             std::string xpath_expr;
             bool debug;
         public:
-            bool cmp(Odr_oid *syntax);
+            bool cmp(Odr_oid *syntax, Z_RecordComposition *comp);
             void add(Z_NamePlusRecord *s);
             int size();
             Z_NamePlusRecord *get(int i, bool ascending);
             void sort();
-            RecordList(Odr_oid *, std::string namespaces,
+            RecordList(Odr_oid *, Z_RecordComposition *comp,
+                       std::string namespaces,
                        std::string xpath_expr, bool debug);
             ~RecordList();
         };
@@ -293,11 +295,18 @@ bool yf::Sort::Record::operator < (const Record &rhs) const
     return false;
 }
 
+static std::string get_esn(Z_RecordComposition *comp)
+{
+    const char *esn = mp::util::record_composition_to_esn(comp);
+    return esn ? esn : "";
+}
+
 yf::Sort::RecordList::RecordList(Odr_oid *syntax,
+                                 Z_RecordComposition *comp,
                                  std::string a_namespaces,
                                  std::string a_xpath_expr,
                                  bool a_debug)
-    : namespaces(a_namespaces), xpath_expr(a_xpath_expr), debug(a_debug)
+    : esn(get_esn(comp)), namespaces(a_namespaces), xpath_expr(a_xpath_expr), debug(a_debug)
 
 {
     if (syntax)
@@ -311,8 +320,10 @@ yf::Sort::RecordList::~RecordList()
 
 }
 
-bool yf::Sort::RecordList::cmp(Odr_oid *syntax)
+bool yf::Sort::RecordList::cmp(Odr_oid *syntax, Z_RecordComposition *comp)
 {
+    if (esn != get_esn(comp))
+        return false;
     if ((!this->syntax && !syntax)
         ||
         (this->syntax && syntax && !oid_oidcmp(this->syntax, syntax)))
@@ -509,14 +520,14 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
         std::list<RecordListPtr>::const_iterator it = s->record_lists.begin();
 
         for (; it != s->record_lists.end(); it++)
-            if ((*it)->cmp(syntax))
+            if ((*it)->cmp(syntax, comp))
                 return;
 
         Z_NamePlusRecordList *nprl = records->u.databaseOrSurDiagnostics;
         int i;    // i is number of records fetched in last response
 
         int pos = 1;
-        RecordListPtr rlp(new RecordList(syntax,
+        RecordListPtr rlp(new RecordList(syntax, comp,
                                          m_p->m_namespaces.c_str(),
                                          m_p->m_xpath_expr.c_str(),
                                          m_p->m_debug));
@@ -649,7 +660,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     ResultSetPtr rset = sets_it->second;
     std::list<RecordListPtr>::const_iterator it = rset->record_lists.begin();
     for (; it != rset->record_lists.end(); it++)
-        if ((*it)->cmp(req->preferredRecordSyntax))
+        if ((*it)->cmp(req->preferredRecordSyntax, req->recordComposition))
         {
             if (*req->resultSetStartPoint - 1 + *req->numberOfRecordsRequested
                 <= (*it)->size())
-- 
2.43.0


From c9e940e1212cb04840c197ca3c0df0aac07ff6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 24/77] fix: sort: present from prefetched records: reference
 ID, next position, range check

---
 src/filter_sort.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index ae2f921..347f151 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -662,15 +662,19 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     for (; it != rset->record_lists.end(); it++)
         if ((*it)->cmp(req->preferredRecordSyntax, req->recordComposition))
         {
-            if (*req->resultSetStartPoint - 1 + *req->numberOfRecordsRequested
-                <= (*it)->size())
+            const Odr_int size = (*it)->size();
+            const Odr_int number = *req->numberOfRecordsRequested;
+            if (start >= 1 && start <= size && number >= 1 &&
+                number <= size - start + 1)
             {
                 int i;
-                Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentResponse);
+                Z_APDU *p_apdu = odr.create_presentResponse(apdu_req, 0, 0);
                 Z_PresentResponse *p_res = p_apdu->u.presentResponse;
 
-                *p_res->nextResultSetPosition = *req->resultSetStartPoint +
-                    *req->numberOfRecordsRequested;
+                if (start + number <= rset->hit_count)
+                    *p_res->nextResultSetPosition = start + number;
+                else
+                    *p_res->nextResultSetPosition = 0;
                 *p_res->numberOfRecordsReturned =
                     *req->numberOfRecordsRequested;
                 p_res->records = (Z_Records *)
-- 
2.43.0


From ce60bd2bdc1fd9dcaef7a678873417846ffc7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 25/77] fix: sort: session closed by the backend was kept open

---
 src/filter_sort.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 347f151..991db14 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -556,6 +556,8 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
 
             present_package.request() = p_apdu;
             present_package.move();
+            if (present_package.session().is_closed())
+                package.session().close();
 
             Z_GDU *gdu_res = present_package.response().get();
             if (gdu_res && gdu_res->which == Z_GDU_Z3950 &&
@@ -632,7 +634,7 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
@@ -715,7 +717,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_package(mp::Package &package)
-- 
2.43.0


From 7a64a05f30eaf21bd12509e8932500be94f0c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 26/77] fix: sort: present of no records disabled sorting of
 the result set

---
 src/filter_sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 991db14..6fec966 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -515,7 +515,8 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
                                         Z_RecordComposition *comp,
                                         const char *resultSetId)
 {
-    if (records && records->which == Z_Records_DBOSD && start_pos == 1)
+    if (records && records->which == Z_Records_DBOSD && start_pos == 1 &&
+        records->u.databaseOrSurDiagnostics->num_records > 0)
     {
         std::list<RecordListPtr>::const_iterator it = s->record_lists.begin();
 
-- 
2.43.0


From 966407f8c8e07b59dced11b0579c242ed7f5c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 27/77] fix: frontend_net: connection stayed open when its
 session was closed with other requests outstanding

---
 src/filter_frontend_net.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 0d0fe6d..d1755da 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -141,8 +141,10 @@ namespace metaproxy_1 {
                         Rep *rep,
                         yazpp_1::LimitConnect &limit,
                         const char *peername);
-            bool is_closed() const { return m_session.is_closed(); }
+            bool is_closed() const
+            { return m_close_pending || m_session.is_closed(); }
             int m_no_requests;
+            bool m_close_pending;
             Port *m_port;
         private:
             yazpp_1::IPDU_Observer* sessionNotify(
@@ -305,8 +307,11 @@ void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
         m_package->session().close();
     }
 
-    if (m_assoc_child->m_no_requests == 0 &&
-        (m_package->session().is_closed() || m_assoc_child->is_closed()))
+    // each package has its own copy of the session
+    if (m_package->session().is_closed())
+        m_assoc_child->m_close_pending = true;
+
+    if (m_assoc_child->m_no_requests == 0 && m_assoc_child->is_closed())
     {
         m_assoc_child->close();
     }
@@ -333,6 +338,7 @@ yf::FrontendNet::ZAssocChild::ZAssocChild(
 {
     m_thread_pool_observer = my_thread_pool;
     m_no_requests = 0;
+    m_close_pending = false;
     m_delete_flag = false;
     m_package = package;
     m_port = port;
-- 
2.43.0


From d6eee179daab2c693b162e56c1914decbfe40486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 28/77] fix: frontend_net: pipelined HTTP requests answered in
 the order they were completed

---
 src/filter_frontend_net.cpp | 60 +++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index d1755da..6411c30 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -146,6 +146,8 @@ namespace metaproxy_1 {
             int m_no_requests;
             bool m_close_pending;
             Port *m_port;
+            void put_http(ThreadPoolPackage *tp);
+            void done_http();
         private:
             yazpp_1::IPDU_Observer* sessionNotify(
                 yazpp_1::IPDU_Observable *the_PDU_Observable,
@@ -160,6 +162,11 @@ namespace metaproxy_1 {
             mp::Session m_session;
             mp::Origin m_origin;
             bool m_delete_flag;
+            // HTTP responses must be in same order as the requests, so only
+            // one HTTP request is processed at a time; others wait here
+            bool m_http_busy;
+            std::list<ThreadPoolPackage *> m_http_waiting;
+            void discard_http();
             const mp::Package *m_package;
             Rep *m_p;
             yazpp_1::LimitConnect &m_limit_http_req;
@@ -169,7 +176,7 @@ namespace metaproxy_1 {
         public:
             ThreadPoolPackage(mp::Package *package,
                               yf::FrontendNet::ZAssocChild *ses,
-                              Rep *rep);
+                              Rep *rep, bool is_http = false);
             ~ThreadPoolPackage();
             IThreadPoolMsg *handle();
             void result(const char *t_info);
@@ -179,6 +186,7 @@ namespace metaproxy_1 {
             ZAssocChild *m_assoc_child;
             mp::Package *m_package;
             Rep *m_p;
+            bool m_is_http;
         };
         class FrontendNet::ZAssocServer : public yazpp_1::Z_Assoc {
         public:
@@ -210,8 +218,9 @@ namespace metaproxy_1 {
 
 yf::FrontendNet::ThreadPoolPackage::ThreadPoolPackage(mp::Package *package,
                                                       ZAssocChild *ses,
-                                                      Rep *rep) :
-    m_assoc_child(ses), m_package(package), m_p(rep)
+                                                      Rep *rep,
+                                                      bool is_http) :
+    m_assoc_child(ses), m_package(package), m_p(rep), m_is_http(is_http)
 {
     timer = yaz_timing_create();
 }
@@ -311,6 +320,9 @@ void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
     if (m_package->session().is_closed())
         m_assoc_child->m_close_pending = true;
 
+    if (m_is_http)
+        m_assoc_child->done_http();
+
     if (m_assoc_child->m_no_requests == 0 && m_assoc_child->is_closed())
     {
         m_assoc_child->close();
@@ -339,6 +351,7 @@ yf::FrontendNet::ZAssocChild::ZAssocChild(
     m_thread_pool_observer = my_thread_pool;
     m_no_requests = 0;
     m_close_pending = false;
+    m_http_busy = false;
     m_delete_flag = false;
     m_package = package;
     m_port = port;
@@ -524,8 +537,44 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
         }
         m_limit_http_req.add_connect(peername.c_str());
     }
-    ThreadPoolPackage *tp = new ThreadPoolPackage(p, this, m_p);
-    m_thread_pool_observer->put(tp);
+    if (z_pdu && z_pdu->which == Z_GDU_HTTP_Request)
+        put_http(new ThreadPoolPackage(p, this, m_p, true));
+    else
+        m_thread_pool_observer->put(new ThreadPoolPackage(p, this, m_p));
+}
+
+void yf::FrontendNet::ZAssocChild::put_http(ThreadPoolPackage *tp)
+{
+    if (m_http_busy)
+        m_http_waiting.push_back(tp);
+    else
+    {
+        m_http_busy = true;
+        m_thread_pool_observer->put(tp);
+    }
+}
+
+void yf::FrontendNet::ZAssocChild::done_http()
+{
+    m_http_busy = false;
+    if (is_closed())
+        discard_http();
+    else if (!m_http_waiting.empty())
+    {
+        ThreadPoolPackage *tp = m_http_waiting.front();
+        m_http_waiting.pop_front();
+        put_http(tp);
+    }
+}
+
+void yf::FrontendNet::ZAssocChild::discard_http()
+{
+    while (!m_http_waiting.empty())
+    {
+        delete m_http_waiting.front();
+        m_http_waiting.pop_front();
+        m_no_requests--;
+    }
 }
 
 void yf::FrontendNet::ZAssocChild::failNotify()
@@ -534,6 +583,7 @@ void yf::FrontendNet::ZAssocChild::failNotify()
     {
         m_session.close();
         m_thread_pool_observer->cleanup(0, &m_session);
+        discard_http();
     }
     // wait for requests being processed: the package that signals "close"
     // must be the last one that filters see for the session
-- 
2.43.0


From 972dc463672848baf88d9fb021d3c56effe3f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 29/77] fix: sru_z3950: target session of a request with a
 failed init was used by the next request

---
 src/filter_sru_to_z3950.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c1af6df..52c203d 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -328,11 +328,13 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
         ok = mp_util::check_sru_query_exists(package, odr_en,
                                              sru_pdu_res, sr_req);
 
-        if (ok && z3950_init_request(package, odr_en,
-                                     zurl, sru_pdu_res, sru_pdu_req))
+        if (ok)
         {
-            ok = z3950_search_request(package, z3950_package, odr_en,
-                                      sru_pdu_res, sr_req, zurl, dbargs);
+            ok = z3950_init_request(package, odr_en,
+                                    zurl, sru_pdu_res, sru_pdu_req);
+            if (ok)
+                ok = z3950_search_request(package, z3950_package, odr_en,
+                                          sru_pdu_res, sr_req, zurl, dbargs);
 
             if (ok
                 && sru_pdu_res->u.response->numberOfRecords
@@ -341,6 +343,8 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
                 ok = z3950_present_request(package, odr_en,
                                            sru_pdu_res,
                                            sr_req);
+            // also after a failed init: the next request on this session
+            // must not meet what is left of this one
             z3950_close_request(package);
         }
     }
-- 
2.43.0


From 68fb1c0299ad7b81015554c521f32fbba5064bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 30/77] fix: sru_z3950: present response with too many, no or
 oddly encoded records

---
 src/filter_sru_to_z3950.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 52c203d..3815139 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -847,6 +847,10 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
             // inserting all records
             int returned_recs =
                 pr->records->u.databaseOrSurDiagnostics->num_records;
+            if (returned_recs > max_recs - num)
+                returned_recs = max_recs - num;
+            if (returned_recs == 0)
+                break;
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
@@ -877,7 +881,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                 else if (npr->which == Z_NamePlusRecord_databaseRecord &&
                     npr->u.databaseRecord->direct_reference
                     && !oid_oidcmp(npr->u.databaseRecord->direct_reference,
-                                   yaz_oid_recsyn_xml))
+                                   yaz_oid_recsyn_xml)
+                    && npr->u.databaseRecord->which == Z_External_octet)
                 {
                     // got XML record back
                     Z_External *r = npr->u.databaseRecord;
-- 
2.43.0


From a764f6fdfe52b53b57f31bfd7812fabe14cf398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 31/77] fix: sru_z3950: failed search answered without
 diagnostics

---
 src/filter_sru_to_z3950.cpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 3815139..69ff370 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -676,6 +676,14 @@ bool yf::SRUtoZ3950::Impl::z3950_search_request(mp::Package &package,
     {
         return false;
     }
+    if (!*sr->searchStatus)
+    {   // failed, but target does not tell why
+        yaz_add_srw_diagnostic(odr_en,
+                               &(sru_pdu_res->u.response->diagnostics),
+                               &(sru_pdu_res->u.response->num_diagnostics),
+                               YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE, 0);
+        return false;
+    }
     Z_FacetList *fl = yaz_oi_get_facetlist(&sr->additionalSearchInfo);
     if (!fl)
         fl =  yaz_oi_get_facetlist(&sr->otherInfo);
@@ -980,6 +988,25 @@ bool yf::SRUtoZ3950::Impl::z3950_to_srw_diagnostics_ok(
                           records->u.nonSurrogateDiagnostic);
         return false;
     }
+    if (records
+        && records->which == Z_Records_multipleNSD
+        && records->u.multipleNonSurDiagnostics)
+    {
+        Z_DiagRecs *recs = records->u.multipleNonSurDiagnostics;
+        int no = 0;
+        for (int i = 0; i < recs->num_diagRecs; i++)
+            if (recs->diagRecs[i]->which == Z_DiagRec_defaultFormat)
+            {
+                z3950_to_srw_diag(odr_en, sru_res,
+                                  recs->diagRecs[i]->u.defaultFormat);
+                no++;
+            }
+        if (no == 0)
+            yaz_add_srw_diagnostic(odr_en, &sru_res->diagnostics,
+                                   &sru_res->num_diagnostics,
+                                   YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE, 0);
+        return false;
+    }
     return true;
 }
 
@@ -989,12 +1016,10 @@ int yf::SRUtoZ3950::Impl::z3950_to_srw_diag(
     Z_DefaultDiagFormat *ddf) const
 {
     int bib1_code = *ddf->condition;
-    sru_res->num_diagnostics = 1;
-    sru_res->diagnostics = (Z_SRW_diagnostic *)
-        odr_malloc(odr_en, sizeof(*sru_res->diagnostics));
-    yaz_mk_std_diagnostic(odr_en, sru_res->diagnostics,
-                          yaz_diag_bib1_to_srw(bib1_code),
-                          ddf->u.v2Addinfo);
+    yaz_add_srw_diagnostic(odr_en, &sru_res->diagnostics,
+                           &sru_res->num_diagnostics,
+                           yaz_diag_bib1_to_srw(bib1_code),
+                           ddf->u.v2Addinfo);
     return 0;
 }
 
-- 
2.43.0


From 3379f113d50cf26af2b1c8ef803dfd8b4167548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:23 +0000
Subject: [PATCH 32/77] fix: sru_z3950: large startRecord and maximumRecords
 truncated, unbounded allocation

---
 src/filter_sru_to_z3950.cpp | 38 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 69ff370..c658f25 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -701,8 +701,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
     const
 {
     assert(sru_pdu_res->u.response);
-    int start = 1;
-    int max_recs = 0;
+    Odr_int start = 1;
+    Odr_int max_recs = 0;
 
     if (!sr_req)
         return false;
@@ -781,9 +781,9 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
         max_recs = *sru_pdu_res->u.response->numberOfRecords - start + 1;
 
     Z_SRW_searchRetrieveResponse *sru_res = sru_pdu_res->u.response;
-    sru_res->records = (Z_SRW_record *)
-        odr_malloc(odr_en, max_recs * sizeof(Z_SRW_record));
-    int num = 0;
+    Z_SRW_record *records = 0;
+    Odr_int records_max = 0; // records is extended as records are returned
+    Odr_int num = 0;
     while (num < max_recs)
     {
         // now packaging the z3950 present request
@@ -859,13 +859,22 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                 returned_recs = max_recs - num;
             if (returned_recs == 0)
                 break;
+            if (num + returned_recs > records_max)
+            {
+                records_max = 2 * num + returned_recs;
+                Z_SRW_record *n_records = (Z_SRW_record *)
+                    odr_malloc(odr_en, records_max * sizeof(Z_SRW_record));
+                for (Odr_int i = 0; i < num; i++)
+                    n_records[i] = records[i];
+                records = n_records;
+            }
             for (int i = 0; i < returned_recs; i++)
             {
-                int position = i + *apdu->u.presentRequest->resultSetStartPoint;
+                Odr_int position = i + *apdu->u.presentRequest->resultSetStartPoint;
                 Z_NamePlusRecord *npr
                     = pr->records->u.databaseOrSurDiagnostics->records[i];
 
-                sru_res->records[i + num].recordPacking = record_packing;
+                records[i + num].recordPacking = record_packing;
 
                 if (npr->which == Z_NamePlusRecord_surrogateDiagnostic)
                 {
@@ -876,13 +885,13 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                         int c = yaz_diag_bib1_to_srw(*df->condition);
 
                         yaz_mk_sru_surrogate(
-                            odr_en, sru_res->records + i + num, position,
+                            odr_en, records + i + num, position,
                             c, df->u.v2Addinfo);
                     }
                     else
                     {
                         yaz_mk_sru_surrogate(
-                            odr_en, sru_res->records + i + num, position,
+                            odr_en, records + i + num, position,
                             YAZ_SRW_RECORD_TEMPORARILY_UNAVAILABLE, 0);
                     }
                 }
@@ -894,27 +903,28 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                 {
                     // got XML record back
                     Z_External *r = npr->u.databaseRecord;
-                    sru_res->records[i + num].recordPosition =
+                    records[i + num].recordPosition =
                         odr_intdup(odr_en, position);
-                    sru_res->records[i + num].recordSchema = sr_req->recordSchema;
-                    sru_res->records[i + num].recordData_buf
+                    records[i + num].recordSchema = sr_req->recordSchema;
+                    records[i + num].recordData_buf
                         = odr_strdupn(odr_en,
                                       (const char *)r->u.octet_aligned->buf,
                                       r->u.octet_aligned->len);
-                    sru_res->records[i + num].recordData_len
+                    records[i + num].recordData_len
                         = r->u.octet_aligned->len;
                 }
                 else
                 {
                     // not XML or no database record at all
                     yaz_mk_sru_surrogate(
-                        odr_en, sru_res->records + i + num, position,
+                        odr_en, records + i + num, position,
                         YAZ_SRW_RECORD_NOT_AVAILABLE_IN_THIS_SCHEMA, 0);
                 }
             }
             num += returned_recs;
         }
     }
+    sru_res->records = records;
     sru_res->num_records = num;
     if (start - 1 + num < *sru_pdu_res->u.response->numberOfRecords)
         sru_res->nextRecordPosition =
-- 
2.43.0


From 91a53a738fbb82ee3e1d2274a7a64e05b50af266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:12 +0000
Subject: [PATCH 33/77] fix: session_shared: users with other info in init
 shared sessions regardless of authentication

---
 src/filter_session_shared.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index af2a967..c4d5e73 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -271,8 +271,11 @@ yf::SessionShared::InitKey::InitKey(Z_InitRequest *req)
 
     Z_IdAuthentication *t = req->idAuthentication;
     z_IdAuthentication(m_odr, &t, 1, 0);
-    m_idAuthentication_buf =
-        odr_getbuf(m_odr, &m_idAuthentication_size, 0);
+    char *buf = odr_getbuf(m_odr, &m_idAuthentication_size, 0);
+    // encoding of other info makes use of same buffer
+    m_idAuthentication_buf = (char*)odr_malloc(m_odr, m_idAuthentication_size);
+    if (m_idAuthentication_size)
+        memcpy(m_idAuthentication_buf, buf, m_idAuthentication_size);
 
     Z_OtherInformation *o = req->otherInfo;
     z_OtherInformation(m_odr, &o, 1, 0);
-- 
2.43.0


From 924d9289ce8a65edc8a82be69a78b75c67cc6d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:12 +0000
Subject: [PATCH 34/77] fix: sru_z3950: explain record not well-formed for some
 requests, diagnostic of unknown operation lost

---
 src/filter_sru_to_z3950.cpp |  4 ++--
 src/sru_util.cpp            | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c658f25..70ad240 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -366,10 +366,10 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
     {
         sru_pdu_res =
             yaz_srw_get_pdu_e(odr_en, Z_SRW_explain_response, sru_pdu_req);
-        sru_pdu_res->u.explain_response->diagnostics = diagnostic;
-        sru_pdu_res->u.explain_response->num_diagnostics = num_diagnostic;
         yaz_add_srw_diagnostic(odr_en, &diagnostic, &num_diagnostic,
                                YAZ_SRW_UNSUPP_OPERATION, "unknown");
+        sru_pdu_res->u.explain_response->diagnostics = diagnostic;
+        sru_pdu_res->u.explain_response->num_diagnostics = num_diagnostic;
     }
     if (enable_package_log)
     {
diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index 860453a..26cd141 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -104,18 +104,24 @@ bool mp_util::build_sru_explain(metaproxy_1::Package &package,
 
     if (explain == 0)
     {
+        // host and database are those of the HTTP request
+        mp::wrbuf host, port, database;
+        wrbuf_xmlputs(host, sruinfo.host.c_str());
+        wrbuf_xmlputs(port, sruinfo.port.c_str());
+        wrbuf_xmlputs(database, sruinfo.database.c_str());
+
         explain_xml
             = mp_util::to_string(
                 "<explain  xmlns=\"" + xmlns_explain + "\">\n"
                 "  <serverInfo protocol='SRU'>\n"
                 "    <host>")
-            + sruinfo.host
+            + wrbuf_cstr(host)
             + mp_util::to_string("</host>\n"
                                  "    <port>")
-            + sruinfo.port
+            + wrbuf_cstr(port)
             + mp_util::to_string("</port>\n"
                                  "    <database>")
-            + sruinfo.database
+            + wrbuf_cstr(database)
             + mp_util::to_string("</database>\n"
                                  "  </serverInfo>\n"
                                  "</explain>\n");
-- 
2.43.0


From b35670a17fbfae7206a3b1770264ef6e1dbe5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 35/77] fix: session_shared: search that failed without
 diagnostics taken for a result set

---
 src/filter_session_shared.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index c4d5e73..c9c4cec 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -741,22 +741,27 @@ bool yf::SessionShared::BackendSet::search(
 
     search_package.move();
 
+    const char *addinfo = "session_shared: "
+        "target closed connection during search";
     Z_GDU *gdu = search_package.response().get();
     if (!search_package.session().is_closed()
         && gdu && gdu->which == Z_GDU_Z3950
         && gdu->u.z3950->which == Z_APDU_searchResponse)
     {
         Z_SearchResponse *b_resp = gdu->u.z3950->u.searchResponse;
-        *z_records = b_resp->records;
-        m_result_set_size = *b_resp->resultCount;
+        if (*b_resp->searchStatus ||
+            (b_resp->records && b_resp->records->which != Z_Records_DBOSD))
+        {
+            *z_records = b_resp->records;
+            m_result_set_size = *b_resp->resultCount;
 
-        additionalSearchInfoResponse = yaz_clone_z_OtherInformation(
-            b_resp->additionalSearchInfo, mem_additionalSearchInfo);
-        return true;
+            additionalSearchInfoResponse = yaz_clone_z_OtherInformation(
+                b_resp->additionalSearchInfo, mem_additionalSearchInfo);
+            return true;
+        }
+        addinfo = "session_shared: search failed without diagnostics";
     }
     Z_APDU *f_apdu = 0;
-    const char *addinfo = "session_shared: "
-        "target closed connection during search";
     if (frontend_apdu->which == Z_APDU_searchRequest)
         f_apdu = odr.create_searchResponse(
             frontend_apdu, YAZ_BIB1_TEMPORARY_SYSTEM_ERROR, addinfo);
-- 
2.43.0


From eeea6c0e64c1c24c9cecc7f326805e776733cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:55 +0000
Subject: [PATCH 36/77] fix: http_client: response cut off by origin relayed as
 a whole one

---
 src/filter_http_client.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index e3d6116..be9cf79 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -73,6 +73,17 @@ yf::HTTPClient::~HTTPClient()
 {
 }
 
+// yaz_url_exec takes what arrived before the connection closed as the
+// response. Content-Length tells if that is all of it.
+static bool is_truncated(Z_HTTP_Response *hres)
+{
+    const char *cl = z_HTTP_header_lookup(hres->headers, "Content-Length");
+    if (!cl || hres->code / 100 == 1 || hres->code == 204 || hres->code == 304
+        || z_HTTP_header_lookup(hres->headers, "Transfer-Encoding"))
+        return false;
+    return hres->content_len < atoi(cl);
+}
+
 void yf::HTTPClient::Rep::proxy(mp::Package &package)
 {
     Z_GDU *req_gdu = package.request().get();
@@ -136,7 +147,13 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
                 yaz_url_exec(yaz_url, uri.c_str(), hreq->method,
                              hreq->headers, hreq->content_buf,
                              hreq->content_len);
-            if (http_response)
+            if (http_response && is_truncated(http_response))
+            {
+                res_gdu = o.create_HTTP_Response_details(
+                    package.session(),
+                    hreq, 502, "http_client: incomplete response from origin");
+            }
+            else if (http_response)
             {
                 res_gdu = o.create_HTTP_Response(package.session(), hreq, 200);
                 z_HTTP_header_remove(&http_response->headers, "Transfer-Encoding");
-- 
2.43.0


From 2fff748ef80cf3f223dc2d9506f98836220229d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:55 +0000
Subject: [PATCH 37/77] fix: http_rewrite: bad regular expression in
 X-Metaproxy-SkipLink terminated the process

---
 src/filter_http_rewrite.cpp | 41 +++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index a4b865b..99df8e7 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -32,6 +32,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <boost/algorithm/string.hpp>
 
 #include <map>
+#include <stdexcept>
 #include <stdlib.h>
 
 namespace mp = metaproxy_1;
@@ -208,18 +209,25 @@ void yf::HttpRewrite::Phase::read_skip_headers(Z_HTTP_Request *hreq,
             continue; // should not happen
         std::string page(hv,p);
         std::string link(p+1);
-        boost::regex pagere(page);
-        if ( boost::regex_search(url, pagere) )
+        try
         {
-            yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
-                    page.c_str(), url.c_str() );
-            boost::regex linkre(link);
-            skip_list.push_back(linkre);
+            boost::regex pagere(page);
+            if ( boost::regex_search(url, pagere) )
+            {
+                yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
+                        page.c_str(), url.c_str() );
+                boost::regex linkre(link);
+                skip_list.push_back(linkre);
+            }
+            else
+            {
+                yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
+                        url.c_str(), page.c_str() );
+            }
         }
-        else
-        {
-            yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
-                    url.c_str(), page.c_str() );
+        catch (std::runtime_error &e)
+        {   // bad expression, or too complex to match
+            yaz_log(YLOG_WARN, "SkipLink ignored, '%s': %s", hv, e.what());
         }
     }
 }
@@ -615,10 +623,17 @@ bool yf::HttpRewrite::Rule::test_patterns(
         bool skipthis = false;
         std::list<boost::regex>::iterator si = skip_list.begin();
         for ( ; si != skip_list.end(); si++) {
-            if ( boost::regex_search(bwhat.str(0), *si) )
+            try
             {
-                skipthis = true;
-                break;
+                if ( boost::regex_search(bwhat.str(0), *si) )
+                {
+                    skipthis = true;
+                    break;
+                }
+            }
+            catch (std::runtime_error &e)
+            {   // expression from client too complex to match
+                yaz_log(YLOG_WARN, "SkipLink ignored: %s", e.what());
             }
         }
         //prepare replacement string
-- 
2.43.0


From 9ad60c0b356e0aec7fc43c8a91e9e50ac569e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:47 +0000
Subject: [PATCH 38/77] fix: http_rewrite: rule that matches the empty string
 looped forever

---
 src/filter_http_rewrite.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 99df8e7..850022c 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -592,7 +592,10 @@ bool yf::HttpRewrite::Rule::test_patterns(
                 if (it->start_anchor && !first)
                     continue;
                 boost::smatch what;
-                if (regex_search(start, end, what, it->re))
+                // an empty match would be found at the same place again
+                if (regex_search(start, end, what, it->re,
+                                 it->start_anchor ? boost::match_default
+                                 : boost::match_not_null))
                 {
                     if (!match_one || what[0].first < bwhat[0].first)
                     {
-- 
2.43.0


From 5ab344d8cbd4d539f09782f9e582b39abf4bbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:41 +0000
Subject: [PATCH 39/77] fix: http_file: prefix matched part of a path
 component, giving access to names beside the document root

---
 src/filter_http_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter_http_file.cpp b/src/filter_http_file.cpp
index 500cdc1..f3967d4 100644
--- a/src/filter_http_file.cpp
+++ b/src/filter_http_file.cpp
@@ -260,6 +260,11 @@ void yf::HttpFile::Rep::fetch_uri(mp::Session &session,
 
             if (path.compare(0, l, it->m_url_path_prefix) == 0)
             {
+                // prefix must be made of whole path components or else
+                // names next to the document root could be reached
+                if (l > 0 && path.length() > l && path[l] != '/' &&
+                    path[l - 1] != '/')
+                    continue;
                 std::string fname = it->m_file_root + path.substr(l);
                 package.log("http_file", YLOG_LOG, "%s", fname.c_str());
                 fetch_file(session, req, fname, package, it->m_raw,
-- 
2.43.0


From 06f0fcbb584953650ab0606fedd8b599a4b0aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:19 +0000
Subject: [PATCH 40/77] fix: cgi: configured documentroot was ignored

---
 src/filter_cgi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 70b16f0..d1d50ba 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -339,7 +339,7 @@ void yf::CGI::configure(const xmlNode *ptr, bool test_only, const char *path)
         }
         else if (!strcmp((const char *) ptr->name, "documentroot"))
         {
-            m_p->documentroot = path;
+            m_p->documentroot = mp::xml::get_text(ptr);
         }
         else
         {
-- 
2.43.0


From 3fa39c981cab800ea74e29add0701abd7a1b8773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:19 +0000
Subject: [PATCH 41/77] fix: cgi: programs inherited all open descriptors,
 client connections included

---
 src/filter_cgi.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index d1d50ba..f8b95a1 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -144,6 +144,21 @@ void yf::CGI::Rep::child(Z_HTTP_Request *hreq, const CGI::Exec *it)
     exit(0);
 }
 
+// The program must not hold on to connections, and other programs' pipes,
+// that happened to be open when it was started.
+static void close_other_fds()
+{
+#ifdef CLOSE_RANGE_UNSHARE
+    if (close_range(3, ~0U, 0) == 0)
+        return;
+#endif
+    long max_fd = sysconf(_SC_OPEN_MAX);
+    if (max_fd < 0)
+        max_fd = 1024;
+    for (long fd = 3; fd < max_fd; fd++)
+        close(fd);
+}
+
 void yf::CGI::process(mp::Package &package) const
 {
     Z_GDU *zgdu_req = package.request().get();
@@ -196,6 +211,7 @@ void yf::CGI::process(mp::Package &package) const
                 close(1);
                 close(fds_response[0]);
                 dup(fds_response[1]);
+                close_other_fds();
                 m_p->child(hreq, &(*it));
                 break;
             case -1: /* error */
-- 
2.43.0


From ee63f6f2a04e8c4b9996c8fe68e483ed20a46ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 42/77] fix: cgi: output lost when the program does not read
 the whole content; programs never saw its end

---
 src/filter_cgi.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index f8b95a1..f49f6c3 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -23,6 +23,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <yaz/zgdu.h>
 #include <yaz/log.h>
 
+#include <errno.h>
 #include <unistd.h>
 #include <fcntl.h>
 #include <signal.h>
@@ -242,7 +243,12 @@ void yf::CGI::process(mp::Package &package) const
                     struct yaz_poll_fd fds[2];
                     fds[0].fd = fds_response[0];
                     fds[0].input_mask = yaz_poll_read;
-                    if (no_write < hreq->content_len)
+                    if (fds_request[1] != -1 && no_write == hreq->content_len)
+                    {
+                        close(fds_request[1]);
+                        fds_request[1] = -1;
+                    }
+                    if (fds_request[1] != -1)
                     {
                         fds[1].fd = fds_request[1];
                         fds[1].input_mask = yaz_poll_write;
@@ -255,21 +261,29 @@ void yf::CGI::process(mp::Package &package) const
                     {
                         char buf[512];
                         ssize_t rd = read(fds_response[0], buf, sizeof buf);
+                        if (rd == -1 && (errno == EAGAIN || errno == EINTR))
+                            continue;
                         if (rd <= 0)
                             break;
                         wrbuf_write(w, buf, rd);
                     }
-                    if (num == 2 && fds[1].output_mask & yaz_poll_write)
+                    if (num == 2 && fds[1].output_mask)
                     {
                         ssize_t wd = write(fds_request[1],
                                            hreq->content_buf + no_write,
                                            hreq->content_len - no_write);
-                        if (wd <= 0)
-                            break;
-                        no_write += wd;
+                        if (wd > 0)
+                            no_write += wd;
+                        else if (errno != EAGAIN && errno != EINTR)
+                        {
+                            // program does not want (more of) the content
+                            close(fds_request[1]);
+                            fds_request[1] = -1;
+                        }
                     }
                 }
-                close(fds_request[1]);
+                if (fds_request[1] != -1)
+                    close(fds_request[1]);
                 close(fds_response[0]);
                 waitpid(pid, &status, 0);
 
-- 
2.43.0


From 269bfdb942afece2a413a9caa90d805beb6875f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 43/77] fix: cgi: stalled program blocked its request and
 worker thread forever

---
 src/filter_cgi.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index f49f6c3..796bc08 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -237,6 +237,7 @@ void yf::CGI::process(mp::Package &package) const
                 fcntl(fds_response[0], F_SETFL, O_NONBLOCK);
                 fcntl(fds_request[1], F_SETFL, O_NONBLOCK);
                 int no_write = 0;
+                bool stalled = false;
                 while (1)
                 {
                     int num = 1;
@@ -256,7 +257,10 @@ void yf::CGI::process(mp::Package &package) const
                     }
                     int r = yaz_poll(fds, num, 60, 0);
                     if (r <= 0)
+                    {
+                        stalled = true;
                         break;
+                    }
                     if (fds[0].output_mask & (yaz_poll_read|yaz_poll_except))
                     {
                         char buf[512];
@@ -285,6 +289,12 @@ void yf::CGI::process(mp::Package &package) const
                 if (fds_request[1] != -1)
                     close(fds_request[1]);
                 close(fds_response[0]);
+                if (stalled)
+                {
+                    yaz_log(YLOG_WARN, "cgi: %s stalled; killing it",
+                            it->program.c_str());
+                    kill(pid, SIGKILL);
+                }
                 waitpid(pid, &status, 0);
 
                 if (pid)
@@ -294,8 +304,7 @@ void yf::CGI::process(mp::Package &package) const
                 }
                 ODR dec = odr_createmem(ODR_DECODE);
                 odr_setbuf(dec, wrbuf_buf(w), wrbuf_len(w), 0);
-                r = z_GDU(dec, &zgdu_res, 0, 0);
-                if (r && zgdu_res)
+                if (!stalled && z_GDU(dec, &zgdu_res, 0, 0) && zgdu_res)
                 {
                     package.response() = zgdu_res;
                 }
-- 
2.43.0


From f493e1610f6cc82a28bb3b994ba4a8d5249472ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 44/77] fix: cgi: no output, or less than announced, was passed
 on as success

---
 src/filter_cgi.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 796bc08..d01d132 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -160,6 +160,16 @@ static void close_other_fds()
         close(fd);
 }
 
+// false if the program announced more content than it wrote
+static bool is_complete(const Z_GDU *gdu)
+{
+    if (gdu->which != Z_GDU_HTTP_Response)
+        return false;
+    const Z_HTTP_Response *hres = gdu->u.HTTP_Response;
+    const char *v = z_HTTP_header_lookup(hres->headers, "Content-Length");
+    return !v || hres->content_len >= atol(v);
+}
+
 void yf::CGI::process(mp::Package &package) const
 {
     Z_GDU *zgdu_req = package.request().get();
@@ -234,6 +244,7 @@ void yf::CGI::process(mp::Package &package) const
                 }
                 WRBUF w = wrbuf_alloc();
                 wrbuf_puts(w, "HTTP/1.1 200 OK\r\n");
+                size_t no_status = wrbuf_len(w);
                 fcntl(fds_response[0], F_SETFL, O_NONBLOCK);
                 fcntl(fds_request[1], F_SETFL, O_NONBLOCK);
                 int no_write = 0;
@@ -304,7 +315,9 @@ void yf::CGI::process(mp::Package &package) const
                 }
                 ODR dec = odr_createmem(ODR_DECODE);
                 odr_setbuf(dec, wrbuf_buf(w), wrbuf_len(w), 0);
-                if (!stalled && z_GDU(dec, &zgdu_res, 0, 0) && zgdu_res)
+                if (!stalled && wrbuf_len(w) > no_status
+                    && z_GDU(dec, &zgdu_res, 0, 0) && zgdu_res
+                    && is_complete(zgdu_res))
                 {
                     package.response() = zgdu_res;
                 }
-- 
2.43.0


From b6c1388cd16230b5f52aab1e15bda573580d3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 45/77] fix: cgi: request passed on to next filter when pipes
 could not be created

---
 src/filter_cgi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index d01d132..9fb350f 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -195,7 +195,7 @@ void yf::CGI::process(mp::Package &package) const
                 zgdu_res = odr.create_HTTP_Response(
                     package.session(), hreq, 400);
                 package.response() = zgdu_res;
-                continue;
+                return;
             }
             int fds_request[2];
             r = pipe(fds_request);
@@ -206,7 +206,7 @@ void yf::CGI::process(mp::Package &package) const
                 package.response() = zgdu_res;
                 close(fds_response[0]);
                 close(fds_response[1]);
-                continue;
+                return;
             }
 
             int status;
-- 
2.43.0


From 92bc8df4f74ac49fa808578bef7a908bb4f5b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 46/77] fix: cgi: CONTENT_LENGTH missing for content without
 type

---
 src/filter_cgi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 9fb350f..a9b43ba 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -116,11 +116,12 @@ void yf::CGI::Rep::child(Z_HTTP_Request *hreq, const CGI::Exec *it)
 
     v = z_HTTP_header_lookup(hreq->headers, "Content-Type");
     if (v)
+        setenv("CONTENT_TYPE", v, 1);
+    if (v || hreq->content_len > 0)
     {
         char tmp[40];
         sprintf(tmp, "%d", hreq->content_len);
         setenv("CONTENT_LENGTH", tmp, 1);
-        setenv("CONTENT_TYPE", v, 1);
     }
     // apply user-defined environment
     std::map<std::string,std::string>::const_iterator it_e;
-- 
2.43.0


From 535d080b3e8a434d1b981814a936fa7b9f83ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 47/77] fix: zoom: first element of layer in target profile was
 skipped

---
 src/filter_zoom.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 3a9c499..67e5d0c 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -585,12 +585,15 @@ yf::Zoom::SearchablePtr yf::Zoom::Impl::parse_torus_record(const xmlNode *ptr)
 
     for (ptr = ptr->children; ptr; ptr = ptr->next)
     {
+        while (ptr && ptr->type == XML_ELEMENT_NODE &&
+               !strcmp((const char *) ptr->name, "layer"))
+            ptr = ptr->children;
+        if (!ptr)
+            break;
         if (ptr->type != XML_ELEMENT_NODE)
             continue;
-        if (!strcmp((const char *) ptr->name, "layer"))
-            ptr = ptr->children;
-        else if (!strcmp((const char *) ptr->name,
-                         "authentication"))
+        if (!strcmp((const char *) ptr->name,
+                    "authentication"))
         {
             s->authentication = mp::xml::get_text(ptr);
         }
-- 
2.43.0


From 7a305fba73c146aa4b916e7083bacbde94119653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:54 +0000
Subject: [PATCH 48/77] fix: zoom: request syntax of target profile used after
 it was freed

---
 src/filter_zoom.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 67e5d0c..f850b40 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1687,14 +1687,14 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
 
     if (enable_pz2_retrieval)
     {
-        std::string configured_request_syntax = b->sptr->request_syntax;
-        if (configured_request_syntax.length())
+        if (b->sptr->request_syntax.length())
         {
-            syntax_name = configured_request_syntax.c_str();
+            syntax_name = b->sptr->request_syntax.c_str();
             const Odr_oid *syntax_oid =
                 yaz_string_to_oid(yaz_oid_std(), CLASS_RECSYN, syntax_name);
-            if (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
-                || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac))
+            if (syntax_oid &&
+                (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
+                 || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac)))
                 assume_marc8_charset = true;
         }
     }
-- 
2.43.0


From dd3794ea057c1350a60fe73fb3a46aac38111767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:54 +0000
Subject: [PATCH 49/77] fix: zoom: present without result set used
 uninitialised records

---
 src/filter_zoom.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index f850b40..3a9f545 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -465,6 +465,14 @@ void yf::Zoom::Backend::present(Odr_int start, Odr_int number,
                                 ZOOM_record *recs,
                                 int *error, char **addinfo, ODR odr)
 {
+    Odr_int i;
+    for (i = 0; i < number; i++)
+        recs[i] = 0;
+    if (!m_resultset)
+    {
+        *error = YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST;
+        return;
+    }
     ZOOM_resultset_records(m_resultset, recs, start, number);
     get_zoom_error(error, addinfo, odr);
 }
-- 
2.43.0


From 22ab61907cc179cff824982675973ca299e3eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:54 +0000
Subject: [PATCH 50/77] fix: zoom: buffers for diagnostics and database
 arguments too small

---
 src/filter_zoom.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 3a9f545..80014c7 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1072,7 +1072,8 @@ bool yf::Zoom::Frontend::create_content_session(mp::Package &package,
                             "unable to open content config %s",
                             m_p->content_config_file.c_str());
                 *error = YAZ_BIB1_TEMPORARY_SYSTEM_ERROR;
-                *addinfo = (char *)  odr_malloc(odr, 70 + tmp_file.length());
+                *addinfo = (char *)
+                    odr_malloc(odr, 70 + m_p->content_config_file.length());
                 sprintf(*addinfo, "zoom: unable to open content config %s",
                         m_p->content_config_file.c_str());
                 return false;
@@ -1323,7 +1324,7 @@ yf::Zoom::BackendPtr yf::Zoom::Frontend::get_backend_from_databases(
                         {
                             *error = YAZ_BIB1_UNSPECIFIED_ERROR;
                             *addinfo = (char*)
-                                odr_malloc(odr, 40 + torus_db.length());
+                                odr_malloc(odr, 40 + database.length());
                             sprintf(*addinfo, "multiple records for udb=%s",
                                     database.c_str());
                             xmlFreeDoc(doc);
@@ -1898,7 +1899,7 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
             }
             else if (enable_pz2_retrieval)
             {
-                char rec_type_str[100];
+                std::string rec_type;
                 const char *record_encoding = 0;
 
                 if (b->sptr->record_encoding.length())
@@ -1906,12 +1907,13 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
                 else if (assume_marc8_charset)
                     record_encoding = "marc8";
 
-                strcpy(rec_type_str, use_turbomarc ? "txml" : "xml");
+                rec_type = use_turbomarc ? "txml" : "xml";
                 if (record_encoding)
                 {
-                    strcat(rec_type_str, "; charset=");
-                    strcat(rec_type_str, record_encoding);
+                    rec_type += "; charset=";
+                    rec_type += record_encoding;
                 }
+                const char *rec_type_str = rec_type.c_str();
 
                 package.log("zoom", YLOG_LOG, "Getting record of type %s",
                             rec_type_str);
-- 
2.43.0


From 7cb28c35dfe98a65df664135c1d26897b3f06e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 51/77] fix: zoom: too many cf_ parameters in target profile
 overran buffer

---
 src/filter_zoom.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 80014c7..369268d 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1558,6 +1558,20 @@ yf::Zoom::BackendPtr yf::Zoom::Frontend::get_backend_from_databases(
             out_names[no_out_args] = "nocproxy";
             out_values[no_out_args++] = odr_strdup(odr, param_nocproxy);
         }
+        // make room for the parameters of the profile and terminator
+        const size_t max_out_args = no_out_args + sptr->cf_param.size() + 1;
+        const char **names1 = (const char **)
+            odr_malloc(odr, max_out_args * sizeof(*names1));
+        const char **values1 = (const char **)
+            odr_malloc(odr, max_out_args * sizeof(*values1));
+        for (i = 0; i < no_out_args; i++)
+        {
+            names1[i] = out_names[i];
+            values1[i] = out_values[i];
+        }
+        out_names = names1;
+        out_values = values1;
+
         std::map<std::string,std::string>::const_iterator it;
         for (it = sptr->cf_param.begin(); it != sptr->cf_param.end(); it++)
         {
-- 
2.43.0


From ae2e6340f68b696324c004834578f47b64bb7038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 52/77] fix: zoom: empty query terminated Metaproxy

---
 src/filter_zoom.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 369268d..295c737 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2501,7 +2501,14 @@ next_proxy:
         ccl_rpn_delete(cn);
     }
 
-    assert(pqf_wrbuf.len());
+    if (pqf_wrbuf.len() == 0)
+    {
+        error = YAZ_BIB1_MALFORMED_QUERY;
+        log_diagnostic(package, error, 0);
+        apdu_res = odr.create_searchResponse(apdu_req, error, 0);
+        package.response() = apdu_res;
+        return;
+    }
 
     ZOOM_query q = ZOOM_query_create();
     ZOOM_query_sortby2(q, b->sptr->sortStrategy.c_str(), sortkeys.c_str());
-- 
2.43.0


From 2554d3a6f88e4c9bcf43bb65856ff0d7129c423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 53/77] fix: zoom: schema and facets of earlier request used
 for later one

---
 src/filter_zoom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 295c737..522a871 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -393,6 +393,8 @@ void yf::Zoom::Backend::search(ZOOM_query q, Odr_int *hits,
         set_option("facets", wrbuf_cstr(w));
         wrbuf_destroy(w);
     }
+    else
+        set_option("facets", (const char *) 0);
     m_resultset = ZOOM_connection_search(m_connection, q);
     get_zoom_error(error, addinfo, odr);
     if (*error == 0)
@@ -1744,7 +1746,7 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
     }
 
     b->set_option("elementSetName", element_set_name);
-    if (b->sptr->sru.length() && element_set_name)
+    if (b->sptr->sru.length())
         b->set_option("schema", element_set_name);
 }
 
-- 
2.43.0


From bacfb0e98026b9d07c6c273eb09b5e90af02da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 54/77] fix: zoom: target profile without zurl crashed
 Metaproxy

---
 src/filter_zoom.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 522a871..86e2b69 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1358,6 +1358,13 @@ yf::Zoom::BackendPtr yf::Zoom::Frontend::get_backend_from_databases(
         BackendPtr b;
         return b;
     }
+    if (sptr->target.length() == 0)
+    {
+        *error = YAZ_BIB1_UNSPECIFIED_ERROR;
+        *addinfo = odr_strdup(odr, "zoom: no zurl for target");
+        BackendPtr b;
+        return b;
+    }
 
     xsltStylesheetPtr xsp = 0;
     if (sptr->transform_xsl_content.length())
-- 
2.43.0


From f3b3ada6a569dc1f253b8a8d4e82394b3c7bae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:29 +0000
Subject: [PATCH 55/77] fix: zoom: query leaked if it could not be converted to
 CQL

---
 src/filter_zoom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 86e2b69..5b2f9b7 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2551,6 +2551,7 @@ next_proxy:
             apdu_res = odr.create_searchResponse(apdu_req, error,
                                                  wrb_addinfo.c_str_null());
             package.response() = apdu_res;
+            ZOOM_query_destroy(q);
             return;
         }
         ZOOM_query_cql(q, wrb_cql.c_str());
-- 
2.43.0


From aec43da8b723e4bb69c10545aa796411ecb2db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:29 +0000
Subject: [PATCH 56/77] fix: zoom: explain present out of range or of empty
 record crashed Metaproxy

---
 src/filter_zoom.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 5b2f9b7..baa28b9 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1776,11 +1776,18 @@ Z_Records *yf::Zoom::Frontend::get_explain_records(
     {
         return records;
     }
-    if (number_to_present > 10000)
-        number_to_present = 10000;
-
     xmlNode *ptr = xmlDocGetRootElement(b->explain_doc);
 
+    int hits = 0;
+    xml_node_search(ptr, &hits, 0);
+    if (start < 0 || start >= hits || number_to_present < 0)
+    {
+        *error = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
+        return records;
+    }
+    if (number_to_present > hits - start)
+        number_to_present = hits - start;
+
     Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
         odr_malloc(odr, sizeof(*npl));
     npl->records = (Z_NamePlusRecord **)
@@ -1792,8 +1799,18 @@ Z_Records *yf::Zoom::Frontend::get_explain_records(
         xmlNode *res = xml_node_search(ptr, &num, start + i + 1);
         if (!res)
             break;
+        const xmlNode *content = res->children;
+        while (content && content->type != XML_ELEMENT_NODE)
+            content = content->next;
+        if (!content)
+        {
+            npl->records[i] = zget_surrogateDiagRec(
+                odr, b->m_frontend_database.c_str(),
+                YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS, 0);
+            continue;
+        }
         xmlBufferPtr xml_buf = xmlBufferCreate();
-        xmlNode *tmp_node = xmlCopyNode(res->children, 1);
+        xmlNode *tmp_node = xmlCopyNode((xmlNode *) content, 1);
         xmlNodeDump(xml_buf, tmp_node->doc, tmp_node, 0, 0);
 
         Z_NamePlusRecord *npr =
-- 
2.43.0


From 50ca5108d74152f483545d0a07a520241352d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:29 +0000
Subject: [PATCH 57/77] fix: zoom: present outside SRU result set repeated its
 request without end

---
 src/filter_zoom.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index baa28b9..e203cb3 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -475,6 +475,14 @@ void yf::Zoom::Backend::present(Odr_int start, Odr_int number,
         *error = YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST;
         return;
     }
+    Odr_int size = ZOOM_resultset_size(m_resultset);
+    if (start >= size)
+    {
+        *error = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
+        return;
+    }
+    if (sptr->sru.length() && number > size - start)
+        number = size - start;
     ZOOM_resultset_records(m_resultset, recs, start, number);
     get_zoom_error(error, addinfo, odr);
 }
-- 
2.43.0


From 39c05b335b49f449a736707fece7497ac61d4be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:05 +0000
Subject: [PATCH 58/77] fix: zoom: present with negative start or number
 without diagnostic

---
 src/filter_zoom.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index e203cb3..21e1d2d 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1873,7 +1873,12 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
                 enable_pz2_retrieval ? "yes" : "no",
                 enable_pz2_transform ? "yes" : "no");
 
-    if (start < 0 || number_to_present <=0)
+    if (start < 0 || number_to_present < 0)
+    {
+        *error = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
+        return records;
+    }
+    if (number_to_present == 0)
         return records;
 
     if (number_to_present > 10000)
-- 
2.43.0


From 3d80e83435c870efe0e959a5bf0407043e0e3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:05 +0000
Subject: [PATCH 59/77] fix: zoom: no diagnostic if target returned none of the
 records

---
 src/filter_zoom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 21e1d2d..68f208b 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1906,6 +1906,8 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
                         "ZOOM C generated. Present phase and no records"))
                 break;
         }
+        if (i == 0)
+            *error = YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS;
     }
     if (i > 0)
     {  // only return records if no error and at least one record
-- 
2.43.0


From c88c0ab685474a04aa5b256bd37aef29838dd450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:05 +0000
Subject: [PATCH 60/77] fix: zoom: record without syntax crashed Metaproxy

---
 src/filter_zoom.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 68f208b..aa82fda 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1974,8 +1974,11 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
                             rec_type_str);
                 int rec_len;
                 xmlChar *xmlrec_buf = 0;
-                const char *rec_buf = ZOOM_record_get(recs[i], rec_type_str,
-                                                      &rec_len);
+                const char *rec_buf = 0;
+                const Z_External *ext = (const Z_External *)
+                    ZOOM_record_get(recs[i], "ext", 0);
+                if (ext && ext->direct_reference)
+                    rec_buf = ZOOM_record_get(recs[i], rec_type_str, &rec_len);
                 if (!rec_buf && !npr)
                 {
                     std::string addinfo("ZOOM_record_get failed for type ");
-- 
2.43.0


From ee8211782bcfb20f27c0db477f794848cd3cabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 61/77] fix: log: line category crashed on sort requests

---
 src/filter_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 27ebadb..7de6b2b 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -395,7 +395,7 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         else
         {
             Z_SortResponse *res = z_res->u.sortResponse;
-            Z_SortRequest *req = z_res->u.sortRequest;
+            Z_SortRequest *req = z_req->u.sortRequest;
             int i;
 
             if (*res->sortStatus == Z_SortResponse_success)
-- 
2.43.0


From 2c94cff8480e0d48f55e8dca69ac26bdbee092c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 62/77] fix: log: line category crashed on empty list of
 diagnostics

---
 src/filter_log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 7de6b2b..61e3351 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -162,7 +162,9 @@ static void log_DefaultDiagFormat(WRBUF w, Z_DefaultDiagFormat *e)
 
 static void log_DiagRecs(WRBUF w, int num_diagRecs, Z_DiagRec **diags)
 {
-    if (diags[0]->which != Z_DiagRec_defaultFormat)
+    if (num_diagRecs < 1)
+        wrbuf_puts(w, "-");
+    else if (diags[0]->which != Z_DiagRec_defaultFormat)
         wrbuf_puts(w ,"(diag not in default format?)");
     else
     {
-- 
2.43.0


From acd7192df8aaf73c11846802c59a0aebc75c5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 63/77] fix: log: line category crashed on other requests
 without response

---
 src/filter_log.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 61e3351..e821418 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -481,7 +481,10 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         }
         break;
     default:
-        wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        if (z_res)
+            wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        else
+            wrbuf_printf(w, "REQ=%d RES=?", z_req->which);
     }
 }
 
-- 
2.43.0


From 6a369a267e5ac4817e92adf385bc1e97ea0c765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 64/77] fix: cql_rpn: leaked memory for queries that cannot be
 converted to CQL

---
 src/filter_cql_rpn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index dbe84e3..9b718d3 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -165,6 +165,7 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
                 Z_APDU *f_apdu =
                     odr.create_searchResponse(apdu_req, r, addinfo);
                 package.response() = f_apdu;
+                wrbuf_destroy(cql);
                 return;
             }
             else
-- 
2.43.0


From 2800a5e1ce3d5f6375a0d983c16921699c9cfc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 65/77] fix: query_rewrite: request referred to freed memory
 after failed rewrite

---
 src/filter_query_rewrite.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_query_rewrite.cpp b/src/filter_query_rewrite.cpp
index 4828781..5d77f54 100644
--- a/src/filter_query_rewrite.cpp
+++ b/src/filter_query_rewrite.cpp
@@ -94,6 +94,7 @@ void yf::QueryRewrite::Rep::process(mp::Package &package) const
             int error_code = 0;
             const char *addinfo = 0;
             mp::odr odr;
+            yazpp_1::GDU org_gdu(gdu); // in case of error
             Z_SearchRequest *req = apdu_req->u.searchRequest;
 
             if (m_stylesheet)
@@ -143,6 +144,8 @@ void yf::QueryRewrite::Rep::process(mp::Package &package) const
                 Z_APDU *f_apdu =
                     odr.create_searchResponse(apdu_req, error_code, addinfo);
                 package.response() = f_apdu;
+                // the query may refer to memory of odr
+                package.request() = org_gdu;
                 return;
             }
             package.request() = gdu;
-- 
2.43.0


From 7a80c6ee8658e1e7dd61c605087018a779b5a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:28 +0000
Subject: [PATCH 66/77] fix: record_transform: record conversion was shared by
 threads without lock

---
 src/filter_record_transform.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index 38db551..ebbadbe 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -49,7 +49,12 @@ namespace metaproxy_1 {
             void process(metaproxy_1::Package & package) const;
             void configure(const xmlNode * xml_node, const char *path);
         private:
+            void convert_npr(yaz_record_conv_t rc,
+                             Odr_oid *match_syntax,
+                             ODR odr_en,
+                             Z_NamePlusRecordList *records, int i) const;
             yaz_retrieval_t m_retrieval;
+            mutable boost::mutex m_mutex; // for error info of conversion
         };
     }
 }
@@ -241,10 +246,9 @@ void yf::RecordTransform::Impl::configure(const xmlNode *xml_node,
     }
 }
 
-static void convert_npr(yaz_record_conv_t rc,
-                        Odr_oid *match_syntax,
-                        ODR odr_en,
-                        Z_NamePlusRecordList *records, int i)
+void yf::RecordTransform::Impl::convert_npr(
+    yaz_record_conv_t rc, Odr_oid *match_syntax, ODR odr_en,
+    Z_NamePlusRecordList *records, int i) const
 {
     Z_NamePlusRecord *npr = records->records[i];
     const char *details = 0;
@@ -256,17 +260,21 @@ static void convert_npr(yaz_record_conv_t rc,
     r = npr->u.databaseRecord;
     if (r->which == Z_External_OPAC)
     {
+        boost::mutex::scoped_lock lock(m_mutex);
         ret_trans = yaz_record_conv_opac_record(rc, r->u.opac,
                                                 output_record);
-        details = yaz_record_conv_get_error(rc);
+        if (ret_trans)
+            details = odr_strdup(odr_en, yaz_record_conv_get_error(rc));
     }
     else if (r->which == Z_External_octet)
     {
+        boost::mutex::scoped_lock lock(m_mutex);
         ret_trans =
             yaz_record_conv_record(
                 rc, (const char *) r->u.octet_aligned->buf,
                 r->u.octet_aligned->len, output_record);
-        details = yaz_record_conv_get_error(rc);
+        if (ret_trans)
+            details = odr_strdup(odr_en, yaz_record_conv_get_error(rc));
     }
     else
     {
-- 
2.43.0


From b645e4069c0b77372df68904ca8c988394a1e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:28 +0000
Subject: [PATCH 67/77] fix: record_transform: leaked character set handle for
 OPAC records

---
 src/filter_record_transform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index ebbadbe..af775be 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -318,6 +318,8 @@ void yf::RecordTransform::Impl::convert_npr(
                         "XML to OPAC conversion failed");
             }
             yaz_marc_destroy(mt);
+            if (cd)
+                yaz_iconv_close(cd);
         }
         else
         {
-- 
2.43.0


From 791d2c07721001efb731e4eec4c6793247c4d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 68/77] fix: cql_rpn: conversion was shared by threads without
 lock

---
 src/filter_cql_rpn.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index 9b718d3..94c254c 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -33,6 +33,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <yaz/tpath.h>
 #include <yaz/oid_std.h>
 
+#include <boost/thread/mutex.hpp>
+
 namespace mp = metaproxy_1;
 namespace yf = metaproxy_1::filter;
 
@@ -46,6 +48,7 @@ namespace metaproxy_1 {
             void configure(const xmlNode *ptr, const char *path);
         private:
             yazpp_1::Yaz_cql2rpn m_cql2rpn;
+            boost::mutex m_mutex; // for m_cql2rpn
             bool reverse;
         };
     }
@@ -158,8 +161,12 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             mp::odr odr;
             WRBUF cql = wrbuf_alloc();
 
-            int r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
                                                 odr, &addinfo);
+            }
             if (r)
             {
                 Z_APDU *f_apdu =
@@ -193,9 +200,13 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
             Z_RPNQuery *rpnquery = 0;
             mp::odr odr;
 
-            int r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
-                                                 &rpnquery, odr,
-                                                 &addinfo);
+            int r;
+            {
+                boost::mutex::scoped_lock lock(m_mutex);
+                r = m_cql2rpn.query_transform(sr->query->u.type_104->u.cql,
+                                              &rpnquery, odr,
+                                              &addinfo);
+            }
             if (r == -3)
             {
                 Z_APDU *f_apdu =
-- 
2.43.0


From b5ce77234a4c1ef31ea931054bb3eb3fe3ac1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 69/77] fix: backend_test: named result sets option was shared
 by all sessions

---
 include/metaproxy/session.hpp | 10 ++++++++++
 src/filter_backend_test.cpp   | 17 +++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index 93951eb..df3decb 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -107,7 +107,17 @@ namespace metaproxy_1 {
                 new boost::mutex::scoped_lock(it->second->m_item_mutex);
         };
 #endif
+        bool get(const metaproxy_1::Session &s, T &t) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
+            typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
+            it = m_map.find(s);
+            if (it == m_map.end())
+                return false;
+            t = it->second.m_t;
+            return true;
+        }
         bool exist(const metaproxy_1::Session &s) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
             it = m_map.find(s);
             return it == m_map.end() ? false : true;
diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index d649561..47b7bbb 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -43,9 +43,9 @@ using namespace mp;
 namespace metaproxy_1 {
     namespace filter {
         class Session_info {
-            int dummy;
         public:
-            Session_info() { dummy = 0; };
+            bool named_result_sets;
+            Session_info() { named_result_sets = false; };
         };
         class BackendTest::Rep {
             friend class BackendTest;
@@ -56,8 +56,6 @@ namespace metaproxy_1 {
                 int start, int number, int &error_code, std::string &addinfo,
                 int *number_returned, int *next_position);
 
-            bool m_support_named_result_sets;
-
             session_map<Session_info> m_sessions;
         };
     }
@@ -94,7 +92,6 @@ static const char *marc_record =
 
 
 yf::BackendTest::BackendTest() : m_p(new BackendTest::Rep) {
-    m_p->m_support_named_result_sets = false;
 }
 
 yf::BackendTest::~BackendTest() {
@@ -220,8 +217,9 @@ void yf::BackendTest::process(Package &package) const
         Z_APDU *apdu_res = 0;
         mp::odr odr;
 
+        Session_info session_info;
         if (apdu_req->which != Z_APDU_initRequest &&
-            !m_p->m_sessions.exist(package.session()))
+            !m_p->m_sessions.get(package.session(), session_info))
         {
             apdu_res = odr.create_close(apdu_req,
                                         Z_Close_protocolError,
@@ -235,9 +233,6 @@ void yf::BackendTest::process(Package &package) const
             Z_InitResponse *resp = apdu_res->u.initResponse;
 
             resp->implementationName = odr_strdup(odr, "backend_test");
-            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
-                m_p->m_support_named_result_sets = true;
-
             int i;
             static const int masks[] = {
                 Z_Options_search, Z_Options_present,
@@ -262,13 +257,15 @@ void yf::BackendTest::process(Package &package) const
             *resp->maximumRecordSize = *req->maximumRecordSize;
 
             Session_info info;
+            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
+                info.named_result_sets = true;
             m_p->m_sessions.create(info, package.session());
         }
         else if (apdu_req->which == Z_APDU_searchRequest)
         {
             Z_SearchRequest *req = apdu_req->u.searchRequest;
 
-            if (!m_p->m_support_named_result_sets &&
+            if (!session_info.named_result_sets &&
                 strcmp(req->resultSetName, "default"))
             {
                 apdu_res =
-- 
2.43.0


From 3e0f4ae9dc0eaf5c556b0ecfbeb090ec7eb7654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 70/77] fix: backend_test: medium set element set ignored for
 few records

---
 src/filter_backend_test.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index 47b7bbb..5102eed 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -288,7 +288,7 @@ void yf::BackendTest::process(Package &package) const
                 if (number)
                 {   // not a large set for sure
                     Z_ElementSetNames *esn;
-                    if (number > *req->smallSetUpperBound)
+                    if (result_set_size >= *req->smallSetUpperBound)
                         esn = req->mediumSetElementSetNames;
                     else
                         esn = req->smallSetElementSetNames;
-- 
2.43.0


From df6f6e890b2daea870c415916cba9fc0d72bb519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 71/77] fix: backend_test: huge or negative counts and sizes
 stopped the server

---
 src/filter_backend_test.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index 5102eed..f563baf 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -23,6 +23,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <metaproxy/util.hpp>
 #include "filter_backend_test.hpp"
 
+#include <stdlib.h>
 #include <stdexcept>
 #include <list>
 #include <map>
@@ -53,7 +54,7 @@ namespace metaproxy_1 {
             Z_Records *fetch(
                 ODR odr, Odr_oid *preferredRecordSyntax,
                 Z_ElementSetNames *esn,
-                int start, int number, int &error_code, std::string &addinfo,
+                Odr_int start, Odr_int number, int &error_code, std::string &addinfo,
                 int *number_returned, int *next_position);
 
             session_map<Session_info> m_sessions;
@@ -100,12 +101,13 @@ yf::BackendTest::~BackendTest() {
 Z_Records *yf::BackendTest::Rep::fetch(
     ODR odr, Odr_oid *preferredRecordSyntax,
     Z_ElementSetNames *esn,
-    int start, int number, int &error_code, std::string &addinfo,
+    Odr_int start, Odr_int number, int &error_code, std::string &addinfo,
     int *number_returned, int *next_position)
 {
     const char *element_set_name = "F"; // default to use
 
-    if (number + start - 1 > result_set_size || start < 1)
+    if (start < 1 || start > result_set_size + 1 ||
+        number < 0 || number > result_set_size - start + 1)
     {
         error_code = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
         return 0;
@@ -174,9 +176,11 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {   // Huge XML test record
             size_t sz = 1024;
             if (element_set_name[2])
-                sz = atoi(element_set_name+2) * 1024;
-            if (sz < 10)
-                sz = 10;
+            {
+                // size in kilobytes. At most 10 MB
+                long kb = strtol(element_set_name + 2, 0, 10);
+                sz = kb > 10240 ? 10240 * 1024 : kb > 0 ? kb * 1024 : 10;
+            }
             char *tmp_rec = (char*) xmalloc(sz);
 
             memset(tmp_rec, 'a', sz);
@@ -190,7 +194,7 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {
             char *tmp_rec = odr_strdup(odr, marc_record);
             char offset_str[30];
-            sprintf(offset_str, "test__%09d_", i+start);
+            sprintf(offset_str, "test__%09d_", (int) (i+start));
             memcpy(tmp_rec+186, offset_str, strlen(offset_str));
             npr->u.databaseRecord = z_ext_record_usmarc(
                 odr, tmp_rec, strlen(tmp_rec));
-- 
2.43.0


From 3906e4f8755a9f2039eadff6eb7008cf825ac817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 72/77] fix: thread pool: workers blocked when pipe to event
 loop was full

---
 src/thread_pool_observer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/thread_pool_observer.cpp b/src/thread_pool_observer.cpp
index 7fdc43a..8da7724 100644
--- a/src/thread_pool_observer.cpp
+++ b/src/thread_pool_observer.cpp
@@ -69,6 +69,7 @@ namespace metaproxy_1 {
         std::deque<IThreadPoolMsg *> m_input;
         std::deque<IThreadPoolMsg *> m_output;
         bool m_stop_flag;
+        bool m_wakeup_pending; // byte in m_pipe. Protected by output mutex
 #if BOOST_VERSION >= 105000
         boost::thread::attributes attrs;
 #endif
@@ -109,6 +110,7 @@ ThreadPoolSocketObserver::ThreadPoolSocketObserver(
     obs->maskObserver(this, SOCKET_OBSERVE_READ);
 
     m_p->m_stop_flag = false;
+    m_p->m_wakeup_pending = false;
     m_p->m_no_threads = 0;
     m_p->m_min_threads = min_threads;
     m_p->m_max_threads = max_threads;
@@ -167,6 +169,10 @@ void ThreadPoolSocketObserver::socketNotify(int event)
                         "ThreadPoolSocketObserver::socketNotify. read returned 0");
         }
 #endif
+        {
+            boost::mutex::scoped_lock output_lock(m_p->m_mutex_output_data);
+            m_p->m_wakeup_pending = false;
+        }
         while (1)
         {
             IThreadPoolMsg *out;
@@ -226,12 +232,18 @@ void ThreadPoolSocketObserver::run(void *p)
         {
             boost::mutex::scoped_lock output_lock(m_p->m_mutex_output_data);
             m_p->m_output.push_back(out);
+            // one byte is enough to make the event loop fetch all results.
+            // More of them could fill the pipe and block all workers.
+            if (m_p->m_wakeup_pending)
+                continue;
+            m_p->m_wakeup_pending = true;
 #ifdef WIN32
             send(m_p->m_pipe.write_fd(), "", 1, 0);
 #else
             ssize_t r = write(m_p->m_pipe.write_fd(), "", 1);
             if (r != 1)
             {
+                m_p->m_wakeup_pending = false;
                 if (r == (ssize_t) (-1))
                     yaz_log(YLOG_WARN|YLOG_ERRNO,
                             "ThreadPoolSocketObserver::run. write fail");
-- 
2.43.0


From ea13c24a380e29cd5b6dfa8aae81dc7e6eec925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 73/77] fix: thread pool: failure to create a thread stopped
 the server

---
 src/thread_pool_observer.cpp | 22 ++++++++++++++++++++--
 src/thread_pool_observer.hpp |  1 +
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool_observer.cpp b/src/thread_pool_observer.cpp
index 8da7724..b4cf828 100644
--- a/src/thread_pool_observer.cpp
+++ b/src/thread_pool_observer.cpp
@@ -124,7 +124,8 @@ ThreadPoolSocketObserver::ThreadPoolSocketObserver(
         yaz_log(YLOG_WARN, "stack_size has no effect (Requires Boost 1.50)");
 #endif
     for (i = 0; i < min_threads; i++)
-        add_worker();
+        if (!try_add_worker())
+            break;
 }
 
 ThreadPoolSocketObserver::~ThreadPoolSocketObserver()
@@ -150,6 +151,23 @@ void ThreadPoolSocketObserver::add_worker(void)
     m_p->m_thrds.add_thread(x);
 }
 
+// Going on with the threads that we have, if any, is better than nothing
+bool ThreadPoolSocketObserver::try_add_worker(void)
+{
+    try
+    {
+        add_worker();
+    }
+    catch (boost::thread_resource_error &e)
+    {
+        if (m_p->m_no_threads == 0)
+            throw;
+        yaz_log(YLOG_WARN, "could not create thread: %s", e.what());
+        return false;
+    }
+    return true;
+}
+
 void ThreadPoolSocketObserver::socketNotify(int event)
 {
     if (event & SOCKET_OBSERVE_READ)
@@ -279,7 +297,7 @@ void ThreadPoolSocketObserver::put(IThreadPoolMsg *m)
     if (m_p->m_waiting_threads == 0 &&
         m_p->m_no_threads < m_p->m_max_threads)
     {
-        add_worker();
+        try_add_worker();
     }
     while (m_p->m_input.size() >= m_p->m_no_threads * queue_size_per_thread)
         m_p->m_cond_input_full.wait(input_lock);
diff --git a/src/thread_pool_observer.hpp b/src/thread_pool_observer.hpp
index f10a16f..8b2839f 100644
--- a/src/thread_pool_observer.hpp
+++ b/src/thread_pool_observer.hpp
@@ -48,6 +48,7 @@ namespace metaproxy_1 {
         void get_thread_info(int &tbusy, int &total);
     private:
         void add_worker(void);
+        bool try_add_worker(void);
         void socketNotify(int event);
         boost::scoped_ptr<Rep> m_p;
 
-- 
2.43.0


From 80d6394b64162907842ca06fa339dd93b459e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 74/77] fix: multi: failure to create a thread stopped the
 server

---
 src/filter_multi.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index f7d03dc..0419ac0 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -319,7 +319,14 @@ void yf::Multi::Frontend::multi_move(std::list<BackendPtr> &blist)
     boost::thread_group g;
     for (bit = blist.begin(); bit != blist.end(); bit++)
     {
-        g.add_thread(new boost::thread(**bit));
+        try
+        {
+            g.add_thread(new boost::thread(**bit));
+        }
+        catch (boost::thread_resource_error &)
+        {
+            (**bit)(); // no more threads: use our own
+        }
     }
     g.join_all();
 }
-- 
2.43.0


From e6b2c72b32bf7c0bac338a727a5d0fd57479df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:23 +0000
Subject: [PATCH 75/77] Undo changes to backend_test, except lock of session
 map

---
 include/metaproxy/session.hpp |  9 ---------
 src/filter_backend_test.cpp   | 37 +++++++++++++++++------------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index df3decb..a713321 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -107,15 +107,6 @@ namespace metaproxy_1 {
                 new boost::mutex::scoped_lock(it->second->m_item_mutex);
         };
 #endif
-        bool get(const metaproxy_1::Session &s, T &t) {
-            boost::mutex::scoped_lock lock(m_map_mutex);
-            typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
-            it = m_map.find(s);
-            if (it == m_map.end())
-                return false;
-            t = it->second.m_t;
-            return true;
-        }
         bool exist(const metaproxy_1::Session &s) {
             boost::mutex::scoped_lock lock(m_map_mutex);
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index f563baf..d649561 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -23,7 +23,6 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <metaproxy/util.hpp>
 #include "filter_backend_test.hpp"
 
-#include <stdlib.h>
 #include <stdexcept>
 #include <list>
 #include <map>
@@ -44,9 +43,9 @@ using namespace mp;
 namespace metaproxy_1 {
     namespace filter {
         class Session_info {
+            int dummy;
         public:
-            bool named_result_sets;
-            Session_info() { named_result_sets = false; };
+            Session_info() { dummy = 0; };
         };
         class BackendTest::Rep {
             friend class BackendTest;
@@ -54,9 +53,11 @@ namespace metaproxy_1 {
             Z_Records *fetch(
                 ODR odr, Odr_oid *preferredRecordSyntax,
                 Z_ElementSetNames *esn,
-                Odr_int start, Odr_int number, int &error_code, std::string &addinfo,
+                int start, int number, int &error_code, std::string &addinfo,
                 int *number_returned, int *next_position);
 
+            bool m_support_named_result_sets;
+
             session_map<Session_info> m_sessions;
         };
     }
@@ -93,6 +94,7 @@ static const char *marc_record =
 
 
 yf::BackendTest::BackendTest() : m_p(new BackendTest::Rep) {
+    m_p->m_support_named_result_sets = false;
 }
 
 yf::BackendTest::~BackendTest() {
@@ -101,13 +103,12 @@ yf::BackendTest::~BackendTest() {
 Z_Records *yf::BackendTest::Rep::fetch(
     ODR odr, Odr_oid *preferredRecordSyntax,
     Z_ElementSetNames *esn,
-    Odr_int start, Odr_int number, int &error_code, std::string &addinfo,
+    int start, int number, int &error_code, std::string &addinfo,
     int *number_returned, int *next_position)
 {
     const char *element_set_name = "F"; // default to use
 
-    if (start < 1 || start > result_set_size + 1 ||
-        number < 0 || number > result_set_size - start + 1)
+    if (number + start - 1 > result_set_size || start < 1)
     {
         error_code = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
         return 0;
@@ -176,11 +177,9 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {   // Huge XML test record
             size_t sz = 1024;
             if (element_set_name[2])
-            {
-                // size in kilobytes. At most 10 MB
-                long kb = strtol(element_set_name + 2, 0, 10);
-                sz = kb > 10240 ? 10240 * 1024 : kb > 0 ? kb * 1024 : 10;
-            }
+                sz = atoi(element_set_name+2) * 1024;
+            if (sz < 10)
+                sz = 10;
             char *tmp_rec = (char*) xmalloc(sz);
 
             memset(tmp_rec, 'a', sz);
@@ -194,7 +193,7 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {
             char *tmp_rec = odr_strdup(odr, marc_record);
             char offset_str[30];
-            sprintf(offset_str, "test__%09d_", (int) (i+start));
+            sprintf(offset_str, "test__%09d_", i+start);
             memcpy(tmp_rec+186, offset_str, strlen(offset_str));
             npr->u.databaseRecord = z_ext_record_usmarc(
                 odr, tmp_rec, strlen(tmp_rec));
@@ -221,9 +220,8 @@ void yf::BackendTest::process(Package &package) const
         Z_APDU *apdu_res = 0;
         mp::odr odr;
 
-        Session_info session_info;
         if (apdu_req->which != Z_APDU_initRequest &&
-            !m_p->m_sessions.get(package.session(), session_info))
+            !m_p->m_sessions.exist(package.session()))
         {
             apdu_res = odr.create_close(apdu_req,
                                         Z_Close_protocolError,
@@ -237,6 +235,9 @@ void yf::BackendTest::process(Package &package) const
             Z_InitResponse *resp = apdu_res->u.initResponse;
 
             resp->implementationName = odr_strdup(odr, "backend_test");
+            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
+                m_p->m_support_named_result_sets = true;
+
             int i;
             static const int masks[] = {
                 Z_Options_search, Z_Options_present,
@@ -261,15 +262,13 @@ void yf::BackendTest::process(Package &package) const
             *resp->maximumRecordSize = *req->maximumRecordSize;
 
             Session_info info;
-            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
-                info.named_result_sets = true;
             m_p->m_sessions.create(info, package.session());
         }
         else if (apdu_req->which == Z_APDU_searchRequest)
         {
             Z_SearchRequest *req = apdu_req->u.searchRequest;
 
-            if (!session_info.named_result_sets &&
+            if (!m_p->m_support_named_result_sets &&
                 strcmp(req->resultSetName, "default"))
             {
                 apdu_res =
@@ -292,7 +291,7 @@ void yf::BackendTest::process(Package &package) const
                 if (number)
                 {   // not a large set for sure
                     Z_ElementSetNames *esn;
-                    if (result_set_size >= *req->smallSetUpperBound)
+                    if (number > *req->smallSetUpperBound)
                         esn = req->mediumSetElementSetNames;
                     else
                         esn = req->smallSetElementSetNames;
-- 
2.43.0


From abeae2f41ecf8465a4721f93fd42ddbb8ee71f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:35 +0000
Subject: [PATCH 76/77] fix: session_shared: a failed init does not unset named
 result sets

The flag of a backend class was cleared and set again for every backend
connection made, and read without the lock of the class. A target that
refused one connection made all others hold one result set only.
---
 src/filter_session_shared.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index c9c4cec..d9dcc57 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -456,7 +456,7 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
 
     addinfo.clear();
     code = 0;
-    m_named_result_sets = false;
+    bool named_result_sets = false;
     Z_GDU *gdu = init_package.response().get();
 
     if (gdu && gdu->which == Z_GDU_Z3950
@@ -466,7 +466,7 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
 
         if (ODR_MASK_GET(res->options, Z_Options_namedResultSets))
         {
-            m_named_result_sets = true;
+            named_result_sets = true;
         }
         // save init-response until we get one that succeeds
         if (m_no_succeeded == 0)
@@ -478,6 +478,7 @@ yf::SessionShared::BackendInstancePtr yf::SessionShared::BackendClass::create_ba
             time(&bp->m_time_last_use);
             bp->m_sequence_this = 0;
             bp->m_result_set_sequence = 0;
+            m_named_result_sets = named_result_sets;
             m_backend_list.push_back(bp);
             m_no_succeeded++;
             m_cond_set_ready.notify_all();
@@ -941,7 +942,12 @@ restart:
             package.response() = f_apdu;
             return;
         }
-        if (bc->m_named_result_sets)
+        bool named_result_sets;
+        {
+            boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
+            named_result_sets = bc->m_named_result_sets;
+        }
+        if (named_result_sets)
         {
             result_set_id = boost::io::str(
                 boost::format("%1%") % found_backend->m_result_set_sequence);
-- 
2.43.0


From 25886b1de44332feb342589d0e093e832256b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 77/77] fix: thread pool statistics are read under the lock

---
 src/thread_pool_observer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/thread_pool_observer.cpp b/src/thread_pool_observer.cpp
index b4cf828..f13a6a8 100644
--- a/src/thread_pool_observer.cpp
+++ b/src/thread_pool_observer.cpp
@@ -207,14 +207,14 @@ void ThreadPoolSocketObserver::socketNotify(int event)
             if (out)
             {
                 size_t input_size = 0;
+                int tbusy, total;
                 std::ostringstream os;
                 {
                     boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
                     input_size = m_p->m_input.size();
                 }
-                os << "tbusy/total "
-                    << m_p->m_no_threads - m_p->m_waiting_threads
-                    << "/" << m_p->m_no_threads
+                get_thread_info(tbusy, total);
+                os << "tbusy/total " << tbusy << "/" << total
                     << " queue in/out " << input_size << "/" <<  output_size;
                 out->result(os.str().c_str());
             }
@@ -224,6 +224,7 @@ void ThreadPoolSocketObserver::socketNotify(int event)
 
 void ThreadPoolSocketObserver::get_thread_info(int &tbusy, int &total)
 {
+    boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
     tbusy = m_p->m_no_threads - m_p->m_waiting_threads;
     total = m_p->m_no_threads;
 }
-- 
2.43.0

