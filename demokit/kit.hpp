// Helpers for the demonstrations: a chain of one real filter and a scripted backend.
#ifndef KIT_HPP
#define KIT_HPP
#include "config.hpp"
#include <metaproxy/package.hpp>
#include <metaproxy/filter.hpp>
#include <metaproxy/util.hpp>
#include <metaproxy/router_chain.hpp>
#include <yaz/zgdu.h>
#include <yaz/log.h>
#include <yaz/diagbib1.h>
#include <yaz/otherinfo.h>
#include <functional>
#include <iostream>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
namespace mp = metaproxy_1;
struct Backend : public mp::filter::Base {
    std::function<void (mp::Package &)> f;
    void process(mp::Package &p) const { f(p); }
    void configure(const xmlNode *, bool, const char *) {}
};
inline void configure(mp::filter::Base &b, const char *xml) {
    xmlDocPtr d = xmlParseMemory(xml, strlen(xml));
    b.configure(xmlDocGetRootElement(d), false, 0);
    xmlFreeDoc(d);
}
inline Z_APDU *req_of(mp::Package &p) {
    Z_GDU *g = p.request().get();
    return g && g->which == Z_GDU_Z3950 ? g->u.z3950 : 0;
}
inline Z_APDU *res_of(mp::Package &p) {
    Z_GDU *g = p.response().get();
    return g && g->which == Z_GDU_Z3950 ? g->u.z3950 : 0;
}
// answers init, search, present and scan positively
inline void answer(mp::Package &p, int hits = 5) {
    Z_APDU *a = req_of(p);
    mp::odr odr;
    if (!a) return;
    if (a->which == Z_APDU_initRequest) {
        Z_APDU *r = odr.create_initResponse(a, 0, 0);
        ODR_MASK_SET(r->u.initResponse->options, Z_Options_search);
        ODR_MASK_SET(r->u.initResponse->options, Z_Options_present);
        ODR_MASK_SET(r->u.initResponse->options, Z_Options_namedResultSets);
        p.response() = r;
    }
    else if (a->which == Z_APDU_searchRequest) {
        Z_APDU *r = odr.create_searchResponse(a, 0, 0);
        *r->u.searchResponse->resultCount = hits;
        p.response() = r;
    }
    else if (a->which == Z_APDU_presentRequest) p.response() = odr.create_presentResponse(a, 0, 0);
    else if (a->which == Z_APDU_scanRequest) p.response() = odr.create_scanResponse(a, 0, 0);
    else if (a->which == Z_APDU_close) { p.response() = odr.create_close(a, Z_Close_finished, 0); p.session().close(); }
}
inline Z_APDU *mk_init(ODR o) { return zget_APDU(o, Z_APDU_initRequest); }
inline Z_APDU *mk_search(ODR o, const char *db, const char *pqf, const char *set = "default") {
    Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest);
    mp::util::pqf(o, a, pqf);
    Z_SearchRequest *r = a->u.searchRequest;
    r->num_databaseNames = 1;
    r->databaseNames = (char **) odr_malloc(o, sizeof(char *));
    r->databaseNames[0] = odr_strdup(o, db);
    r->resultSetName = odr_strdup(o, set);
    return a;
}
inline void deadline(int sec) { signal(SIGALRM, SIG_DFL); alarm(sec); }
inline int fail(const char *m) { printf("FAIL: %s\n", m); fflush(stdout); _exit(1); }
#endif
