import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
FLEX=['router_flexml','factory_filter','filter','xmlutil','package','session','origin','util']
RT='''
#include "kit.hpp"
#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include <string>
#include <map>
#include <functional>
static std::string trail;
struct F : public mp::filter::Base {
    std::string id;
    mutable std::function<void (mp::Package &)> f;
    void process(mp::Package &p) const;
    void configure(const xmlNode *n, bool, const char *) {
        for (const xmlAttr *a = n->properties; a; a = a->next)
            if (!strcmp((const char *) a->name, "id")) id = (const char *) a->children->content;
    }
    void start() const { trail += "+" + id; }
    void stop(int) const { trail += "-" + id; }
};
static std::map<std::string, std::function<void (mp::Package &)> > act;
void F::process(mp::Package &p) const { trail += id; if (act[id]) act[id](p); else p.move(); }
static mp::filter::Base *mk() { return new F; }
#define MPX "<metaproxy xmlns='http://indexdata.com/metaproxy' version='1.0'><start route='start'/>"
#define FL(x) "<filter id='" x "' type='t'/>"
#define R(x) "<filter refid='" x "'/>"
'''
S('route-reenter','C12',[('router_flexml.cpp','    if (route && *route)\n','    if (route && *route && m_route_it->first != route)\n')],
'a filter that sends its package to the named route the package is already on','the package goes on from where it stands instead of starting the named route again',FLEX,RT+r'''
int main() {
    mp::FactoryFilter fac; fac.add_creator("t", mk);
    mp::RouterFleXML r(std::string(MPX "<filters>" FL("A") FL("B") FL("C") "</filters><routes><route id='start'>" R("A") R("B") R("C") "</route></routes></metaproxy>"), fac, false);
    int n = 0;
    act["B"] = [&n](mp::Package &p) { if (n++ == 0) p.move("start"); else p.move(); };
    mp::Package p; p.router(r).move();
    if (trail != "ABABC") { printf("visited %s\n", trail.c_str()); return 1; }
    return 0;
}
''')
S('route-clone-named','C12',[('router_flexml.cpp','    p->m_route_it = m_route_it;\n    p->m_p = m_p;','    p->m_route_it = m_p->m_routes.find(m_p->m_start_route);\n    p->m_p = m_p;')],
'a package derived while the original is inside a named route that is not the start route','the derived package does not see the end of its own route: it runs past the last filter',FLEX,RT+r'''
int main() {
    mp::FactoryFilter fac; fac.add_creator("t", mk);
    mp::RouterFleXML r(std::string(MPX "<filters>" FL("A") FL("B") FL("C") "</filters><routes><route id='start'>" R("A") "</route><route id='x'>" R("B") R("C") "</route></routes></metaproxy>"), fac, false);
    alarm(20);
    act["A"] = [](mp::Package &p) { p.move("x"); };
    act["B"] = [](mp::Package &p) {
        mp::Package q(p.session(), p.origin()); q.copy_filter(p); q.move(); trail += "|"; q.move(); };
    mp::Package p; p.router(r).move();
    if (trail != "ABC|") { printf("visited %s\n", trail.c_str()); return 1; }
    return 0;
}
''')
S('session-assign-same','C14',[('include/metaproxy/session.hpp','            if (this != &s)\n','            if (this != &s && m_id != s.m_id)\n')],
'a session object that is assigned a later, closed copy of itself','the copy keeps looking open after the session was closed',['session'],r'''
#include <metaproxy/session.hpp>
#include <stdio.h>
int main() {
    metaproxy_1::Session a, b(a);
    a.close();
    b = a;
    if (!b.is_closed() || b.id() != a.id()) { printf("copy of a closed session is open\n"); return 1; }
    metaproxy_1::Session c; c = b;
    if (!c.is_closed() || c.id() != a.id()) return 1;
    return 0;
}
''')
