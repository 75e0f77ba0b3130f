import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
FLEX=['router_flexml','factory_filter','filter','xmlutil','package','session','origin','util']
PRE=open('/verif/seeded/route-clone-named/main.cpp').read().split('int main()')[0]+r'''
static int refused(const std::string &x) {
    mp::FactoryFilter fac; fac.add_creator("t", mk);
    try { mp::RouterFleXML r(x, fac, false); } catch (mp::XMLError &) { return 1; }
    return 0;
}
'''
PRE=PRE.replace('#include <string>','#include <metaproxy/xmlutil.hpp>\n#include <string>',1)
S('config-filter-list','C11',[('router_flexml.cpp','    while (node && mp::xml::check_element_mp(node, "filter"))','    mp::xml::check_element_mp(node, "filter");\n    while (mp::xml::is_element_mp(node, "filter"))')],
'an element other than filter after the first filter of the filters section','it and all filters after it are silently left out',FLEX,PRE+r'''
int main() {
    if (refused(MPX "<filters>" FL("A") FL("B") "</filters><routes><route id='start'>" R("A") "</route></routes></metaproxy>")) return 1;
    if (!refused(MPX "<filters>" FL("A") "<fliter id='B' type='t'/>" FL("C") "</filters><routes><route id='start'>" R("A") "</route></routes></metaproxy>")) { printf("accepted\n"); return 1; }
    return 0;
}
''')
S('config-empty-id','C11',[('router_flexml.cpp','        if (m_id_filter_map.find(id_value) != m_id_filter_map.end())','        if (m_id_filter_map.size() > 1 &&\n            m_id_filter_map.find(id_value) != m_id_filter_map.end())')],
'the very first filter defined again as the second one','the second definition silently replaces the first',FLEX,PRE+r'''
int main() {
    if (!refused(MPX "<filters>" FL("A") FL("A") FL("C") "</filters><routes><route id='start'>" R("A") "</route></routes></metaproxy>")) { printf("accepted\n"); return 1; }
    return 0;
}
''')
S('config-last-route','C11',[('router_flexml.cpp','''            check_routes_in_filters(n);
        }''','''            if (n && !mp::xml::is_element_mp(n, "filters"))
                check_routes_in_filters(n);
        }''')],
'a reference to a missing route in a filter inside doubly nested filters','the missing route is found only when a request needs it',FLEX,PRE+r'''
int main() {
    if (!refused(MPX "<routes><route id='start'><filters><filters><filter type='t'><target route='none'/></filter></filters></filters></route></routes></metaproxy>")) { printf("accepted\n"); return 1; }
    return 0;
}
''')
