import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
CORE=['package','router_chain','session','origin','filter','xmlutil','util']
S('outcome-no-set','C07',[('filter_virt_db.cpp','''                YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST,
                resultSetId.c_str());
        package.response() = apdu;
        return;
    }
    Session *id =''','''                YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST,
                resultSetId.c_str());
        if (!m_sets.empty())
            package.response() = apdu;
        return;
    }
    Session *id =''')],
'a client that asks for records before it has made any search in the session','the request is never answered and the client waits for ever',CORE+['filter_virt_db'],r'''
#include "kit.hpp"
#include "filter_virt_db.hpp"
int main() {
    mp::filter::VirtualDB f; f.add_map_db2target("Default", "localhost:1", ""); Backend b;
    b.f = [](mp::Package &p) { answer(p); };
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o;
    { mp::odr odr; mp::Package p(s, o); p.router(r); 
      p.request() = mk_init(odr); p.move();
      if (!res_of(p) || res_of(p)->which != Z_APDU_initResponse) return fail("init"); }
    { mp::odr odr; mp::Package p(s, o); p.router(r);
      Z_APDU *a = zget_APDU(odr, Z_APDU_presentRequest);
      p.request() = a; p.move();
      Z_APDU *x = res_of(p);
      if (!x && !p.session().is_closed()) return fail("present without outcome");
      if (x && x->which != Z_APDU_presentResponse) return fail("other response"); }
    return 0;
}
''')
S('outcome-research','C07',[('filter_session_shared.cpp','''        f_apdu = odr.create_close(
            frontend_apdu, YAZ_BIB1_TEMPORARY_SYSTEM_ERROR, addinfo);
    frontend_package.response() = f_apdu;
    return false;''','''        f_apdu = odr.create_close(
            frontend_apdu, YAZ_BIB1_TEMPORARY_SYSTEM_ERROR, addinfo);
    if (!search_package.session().is_closed())
        frontend_package.response() = f_apdu;
    return false;''')],
'a target that closes its session while it searches','the search gets neither a response nor the end of the session',CORE+['filter_session_shared'],r'''
#include "kit.hpp"
#include "filter_session_shared.hpp"
int main() {
    mp::filter::SessionShared f; Backend b;
    b.f = [](mp::Package &p) {
        Z_APDU *q = req_of(p);
        if (q && q->which == Z_APDU_searchRequest) { p.session().close(); return; }
        answer(p);
    };
    configure(f, "<filter/>");
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o;
    { mp::odr odr; mp::Package p(s, o); p.router(r); 
      p.request() = mk_init(odr); p.move();
      if (!res_of(p) || res_of(p)->which != Z_APDU_initResponse) return fail("init"); }
    int rc = 0;
    { mp::odr odr; mp::Package p(s, o); p.router(r);
      p.request() = mk_search(odr, "Default", "computer"); p.move();
      if (!res_of(p) && !p.session().is_closed()) rc = 1; }
    fflush(stdout); _exit(rc);
}
''')
