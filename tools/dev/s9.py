import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
CORE=['package','router_chain','session','origin','filter','xmlutil','util']
S('unset-max-sockets','C22',[('origin.cpp','m_address(""), m_origin_id(0), m_max_sockets(0)\n{\n}','m_address(""), m_origin_id(0)\n{\n    if (m_address.length())\n        m_max_sockets = 0;\n}')],
'a request object made in memory that was used before','the limit of outgoing connections of a client that has none is whatever was in memory',['origin'],r'''
#include "kit.hpp"
#include <metaproxy/origin.hpp>
#include <new>
#include <string.h>
int main() {
    alignas(mp::Origin) unsigned char buf[sizeof(mp::Origin)];
    for (int k = 0; k < 256; k += 51) {
        memset(buf, k, sizeof buf);
        mp::Origin *o = new (buf) mp::Origin;
        int m = o->get_max_sockets();
        o->~Origin();
        if (m != 0) return fail("limit from nowhere");
    }
    return 0;
}
''')
S('unset-cql-external','C22',[('filter_cql_rpn.cpp','''                ext->indirect_reference = 0;
                ext->descriptor = 0;
''','''                ext->indirect_reference = 0;
                if (sr->query->which != Z_Query_type_1)
                    ext->descriptor = 0;
''')],
'a translated query in memory that was used before','the query sent to the target carries a stray pointer',CORE+['filter_cql_rpn'],r'''
#include "kit.hpp"
#include "filter_cql_rpn.hpp"
#include <fstream>
#include <stdlib.h>
int main(int argc, char **argv) {
    if (!getenv("GLIBC_TUNABLES")) { setenv("GLIBC_TUNABLES", "glibc.malloc.perturb=165", 1); execv("/proc/self/exe", argv); return 2; }
    { std::ofstream c("conv.txt"); c << "set.cql = info:srw/cql-context-set/1/cql-v1.1\nindex.cql.serverChoice = 1=1016\nqualifier.cql.serverChoice = 1=1016\nrelation.eq = 2=3\nrelation.scr = 2=3\nposition.any = 3=3 6=1\nstructure.* = 4=1\n"; }
    mp::filter::CQLtoRPN f; Backend b; bool bad = false, seen = false;
    configure(f, "<filter><conversion file='conv.txt' reverse='true'/></filter>");
    b.f = [&](mp::Package &p) {
        Z_APDU *q = req_of(p);
        if (q && q->which == Z_APDU_searchRequest && q->u.searchRequest->query->which == Z_Query_type_104) {
            seen = true;
            if (q->u.searchRequest->query->u.type_104->descriptor) bad = true;
        }
        answer(p);
    };
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o;
    { mp::odr odr; mp::Package p(s, o); p.router(r); p.request() = mk_search(odr, "Default", "@attr 1=1016 @attr 2=3 @attr 4=1 @attr 3=3 @attr 6=1 water"); p.move(); }
    if (!seen) return fail("not translated");
    if (bad) return fail("stray pointer");
    return 0;
}
''')
