import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
CORE=['package','router_chain','session','origin','filter','xmlutil','util']
FF=CORE+['factory_filter']
PF='''
#include "kit.hpp"
#include <metaproxy/filter.hpp>
#include "factory_filter.hpp"
#include <string>
struct A : mp::filter::Base { void process(mp::Package &) const {} void configure(const xmlNode *, bool, const char *) {} };
struct B : A {};
static mp::filter::Base *ca() { return new A; }
static mp::filter::Base *cb() { return new B; }
'''
S('factory-reregister','C24',[('factory_filter.cpp','    return m_p->m_fcm.insert(Rep::CallbackMap::value_type(fi, cfc)).second;','''    std::size_t before = m_p->m_fcm.size();
    m_p->m_fcm[fi] = cfc;
    return m_p->m_fcm.size() != before;''')],
'the same type name registered twice with different creators','the second registration, although reported as refused, replaces the first',FF,PF+r'''
int main() {
    mp::FactoryFilter f;
    if (!f.add_creator("a", ca) || f.add_creator("a", cb)) return 1;
    mp::filter::Base *x = f.create("a");
    if (dynamic_cast<B *>(x)) { printf("second creator used\n"); return 1; }
    delete x;
    return 0;
}
''')
S('factory-next-name','C24',[('factory_filter.cpp','''    Rep::CallbackMap::const_iterator it = m_p->m_fcm.find(fi);

    if (it == m_p->m_fcm.end()){''','''    Rep::CallbackMap::const_iterator it = m_p->m_fcm.lower_bound(fi);

    if (it == m_p->m_fcm.end() || it->first.compare(0, fi.length(), fi)){''')],
'an unknown type whose name is a prefix of a known one','a filter of another type is made instead of refusing the name',FF,PF+r'''
int main() {
    mp::FactoryFilter f;
    f.add_creator("sru_z3950", ca);
    try { delete f.create("sru"); } catch (mp::FactoryFilter::NotFound &) { return 0; }
    printf("unknown type made\n");
    return 1;
}
''')
PO='''
#include "kit.hpp"
#include <metaproxy/origin.hpp>
#include <string>
'''
S('origin-forward-list','C30',[('origin.cpp',"        size_t pos1 = m_address.rfind(' ', pos2 - 1);","        size_t pos1 = m_address.find(' ');\n        if (pos1 == pos2)\n            pos1 = std::string::npos;")],
'a forwarding header that lists several addresses','part of the header is taken for the client address',CORE,PO+r'''
int main() {
    mp::Origin o;
    o.set_tcpip_address("10.0.0.1 @:9000", 1);
    o.set_tcpip_address("1.1.1.1, 2.2.2.2", 1);
    if (o.get_address() != "10.0.0.1") { printf("%s\n", o.get_address().c_str()); return 1; }
    return o.get_bind_address() == "@:9000" ? 0 : 1;
}
''')
S('origin-full-pair','C30',[('origin.cpp','''    if (tmp.length())
    {
        m_address.append(" ");''','''    if (tmp.length() && tmp.find(' ', tmp.find(' ') + 1) == std::string::npos)
    {
        m_address.append(" ");''')],
'a third address set on the same origin (header seen twice, or after a derived package)','the address of the connection is forgotten',CORE,PO+r'''
int main() {
    mp::Origin o;
    o.set_tcpip_address("10.0.0.1 @:9000", 1);
    o.set_tcpip_address("1.1.1.1", 1);
    o.set_tcpip_address("3.3.3.3 4.4.4.4", 1);
    if (o.get_address() != "10.0.0.1") { printf("%s\n", o.get_address().c_str()); return 1; }
    return o.get_bind_address() == "@:9000" ? 0 : 1;
}
''')
