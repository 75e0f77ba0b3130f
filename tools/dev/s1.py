import sys; sys.path.insert(0,'/tmp')
from seed import seed
import sys
which=sys.argv[1:]
CORE=['package','router_chain','session','origin','filter','xmlutil','util']
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
S('session-id-lock','C01',[('include/metaproxy/session.hpp','''            boost::mutex::scoped_lock scoped_lock(m_mutex);
            ++m_global_id;
            m_id =  m_global_id;
''','''            {
                boost::mutex::scoped_lock scoped_lock(m_mutex);
                ++m_global_id;
            }
            m_id =  m_global_id;
''')],'two threads creating sessions at the same moment','two client sessions can get the same identity: the counter is read after the lock is given up',
['session'],'''
#include <metaproxy/session.hpp>
#include <boost/thread/thread.hpp>
#include <vector>
#include <algorithm>
#include <stdio.h>
int main() {
    const int T = 8, N = 400000;
    std::vector<std::vector<unsigned long> > v(T);
    for (int round = 0; round < 4; round++) {
        boost::thread_group g;
        for (int t = 0; t < T; t++) {
            v[t].clear(); v[t].reserve(N);
            g.create_thread([&v, t]() { for (int i = 0; i < N; i++) { metaproxy_1::Session s; v[t].push_back(s.id()); } });
        }
        g.join_all();
        std::vector<unsigned long> all;
        for (auto &x : v) all.insert(all.end(), x.begin(), x.end());
        std::sort(all.begin(), all.end());
        if (std::adjacent_find(all.begin(), all.end()) != all.end()) { printf("duplicate session id\\n"); return 1; }
    }
    return 0;
}
''')
S('pool-stop-wakeup','C03',[('thread_pool_observer.cpp','        m_p->m_cond_input_data.notify_all();\n','        m_p->m_cond_input_data.notify_one();\n')],
'shutdown of a pool in which more than one worker is idle','only one of the idle workers learns that the pool stops; the others sleep on and the shutdown never ends',
['thread_pool_observer','pipe'],'''
#include "thread_pool_observer.hpp"
#include <yazpp/socket-manager.h>
#include <unistd.h>
#include <stdio.h>
struct Obs : public yazpp_1::ISocketObservable {
    void addObserver(int, yazpp_1::ISocketObserver *) {}
    void deleteObserver(yazpp_1::ISocketObserver *) {}
    void deleteObservers() {}
    void maskObserver(yazpp_1::ISocketObserver *, int) {}
    void timeoutObserver(yazpp_1::ISocketObserver *, int) {}
};
int main() {
    Obs o;
    alarm(20);
    {
        metaproxy_1::ThreadPoolSocketObserver p(&o, 6, 6, 0);
        usleep(500000);
    }
    return 0;
}
''')
S('multi-plain-release','C04',[('filter_multi.cpp','        else\n        {\n            it->second->m_in_use = false;\n        }\n','        else if (it->second->m_is_multi)\n        {\n            it->second->m_in_use = false;\n        }\n')],
'a session whose first request is passed on untouched (no multi-target init), followed by a second request','the second request of such a session waits for ever',
CORE+['filter_multi'],'''
#include "kit.hpp"
#include "filter_multi.hpp"
int main() {
    mp::filter::Multi f; Backend b; b.f = [](mp::Package &p) { answer(p); };
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o;
    int n = 0;
    for (int i = 0; i < 3; i++) {
        mp::odr odr;
        mp::Package p(s, o); p.router(r);
        p.request() = mk_search(odr, "Default", "computer");
        p.move();
        if (res_of(p)) n++;
    }
    return n == 3 ? 0 : 1;
}
''')
S('shared-scan-release','C05',[('filter_session_shared.cpp','''            frontend_package.session().close();
            bc->remove_backend(backend);
        }
        else
            bc->release_backend(backend);
''','''            frontend_package.session().close();
            bc->remove_backend(backend);
        }
        else if (scan_package.response().get())
            bc->release_backend(backend);
''')],'a scan that the backend leaves unanswered while its connection stays open','the pooled backend stays marked as used for ever; with the pool limit reached later searches are refused',
CORE+['filter_session_shared'],'''
#include "kit.hpp"
#include "filter_session_shared.hpp"
int main() {
    mp::filter::SessionShared f; Backend b;
    b.f = [](mp::Package &p) { Z_APDU *a = req_of(p); if (a && a->which == Z_APDU_scanRequest) return; answer(p); };
    configure(f, "<filter xmlns='http://indexdata.com/metaproxy' type='session_shared'><resultset max='1' ttl='1'/><session ttl='1000' max='1'/></filter>");
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o; o.set_tcpip_address("h h", 1);
    mp::odr odr;
    { mp::Package p(s, o); p.router(r); p.request() = mk_init(odr); p.move(); if (!res_of(p)) fail("no init response"); }
    { mp::Package p(s, o); p.router(r); p.request() = zget_APDU(odr, Z_APDU_scanRequest);
      Z_APDU *a = zget_APDU(odr, Z_APDU_scanRequest);
      a->u.scanRequest->num_databaseNames = 1; a->u.scanRequest->databaseNames = (char **) odr_malloc(odr, sizeof(char *)); a->u.scanRequest->databaseNames[0] = (char *) "Default";
      int x; Z_APDU *q = mk_search(odr, "Default", "@attr 1=4 a");
      a->u.scanRequest->termListAndStartPoint = q->u.searchRequest->query->u.type_1->RPNStructure->u.simple->u.attributesPlusTerm;
      p.request() = a; p.move(); }
    { mp::Package p(s, o); p.router(r); p.request() = mk_search(odr, "Default", "computer"); p.move();
      Z_APDU *a = res_of(p); if (!a || a->which != Z_APDU_searchResponse) fail("no search response");
      if (*a->u.searchResponse->resultCount != 5) fail("search refused"); }
    _exit(0);
}
''')
