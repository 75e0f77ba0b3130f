import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
CORE=['package','router_chain','session','origin','filter','xmlutil','util']
S('answer-scan-ref','C19',[('util.cpp','''    Z_APDU *apdu = create_APDU(Z_APDU_scanResponse, in_apdu);
    Z_ScanResponse''','''    Z_APDU *apdu = create_APDU(Z_APDU_scanResponse, error ? 0 : in_apdu);
    Z_ScanResponse''')],
'a scan that fails, from a client that gives a reference with its requests','the client cannot tell which request the failure belongs to',CORE,r'''
#include "kit.hpp"
#include <metaproxy/util.hpp>
#include <string.h>
int main() {
    for (int e = 0; e < 110; e += 109) {
        mp::odr odr;
        Z_APDU *q = zget_APDU(odr, Z_APDU_scanRequest);
        q->u.scanRequest->referenceId = odr_create_Odr_oct(odr, "ref7", 4);
        Z_APDU *a = odr.create_scanResponse(q, e, "x");
        Odr_oct *r = a->u.scanResponse->referenceId;
        if (a->which != Z_APDU_scanResponse) return fail("kind");
        if (!r || r->len != 4 || memcmp(r->buf, "ref7", 4)) return fail("reference lost");
    }
    return 0;
}
''')
S('answer-scan-kind','C19',[('filter_virt_db.cpp','''                odr.create_scanResponse(
                    apdu_req, error_code, addinfo.c_str());''','''                odr.create_searchResponse(
                    apdu_req, error_code, addinfo.c_str());''')],
'a target that refuses the session that a scan needs','the scan is answered with the response of a search',CORE+['filter_virt_db'],r'''
#include "kit.hpp"
#include "filter_virt_db.hpp"
#include <yaz/pquery.h>
int main() {
    mp::filter::VirtualDB f; f.add_map_db2target("Default", "localhost:1", ""); Backend b;
    b.f = [](mp::Package &p) {
        Z_APDU *q = req_of(p);
        mp::odr odr;
        if (q && q->which == Z_APDU_initRequest) p.response() = odr.create_initResponse(q, 1, "refused");
        else answer(p);
    };
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o;
    { mp::odr odr; mp::Package p(s, o); p.router(r); 
      p.request() = mk_init(odr); p.move();
      if (!res_of(p) || res_of(p)->which != Z_APDU_initResponse) return fail("init"); }
    { mp::odr odr; mp::Package p(s, o); p.router(r);
      Z_APDU *a = zget_APDU(odr, Z_APDU_scanRequest);
      Z_ScanRequest *q = a->u.scanRequest;
      q->num_databaseNames = 1; q->databaseNames = (char **) odr_malloc(odr, sizeof(char *));
      q->databaseNames[0] = odr_strdup(odr, "Default");
      Z_RPNQuery *rq = p_query_rpn(odr, "water");
      q->termListAndStartPoint = rq->RPNStructure->u.simple->u.attributesPlusTerm;
      q->numberOfTermsRequested = odr_intdup(odr, 5);
      p.request() = a; p.move();
      Z_APDU *x = res_of(p);
      if (!x && !p.session().is_closed()) return fail("no answer");
      if (x && x->which != Z_APDU_scanResponse && x->which != Z_APDU_close) return fail("another response"); }
    return 0;
}
''')
