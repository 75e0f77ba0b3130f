import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
XU='''
#include "kit.hpp"
#include <metaproxy/xmlutil.hpp>
#include <string>
static xmlDocPtr D(const char *s) { return xmlParseMemory(s, strlen(s)); }
static const xmlNode *R(xmlDocPtr d) { return xmlDocGetRootElement(d); }
'''
CORE=['package','router_chain','session','origin','filter','xmlutil','util']
S('xml-split-text','C28',[('xmlutil.cpp','    for (; ptr; ptr = ptr->next)\n        if (ptr->type == XML_TEXT_NODE)\n            c += ','    for (; ptr && ptr->type != XML_ELEMENT_NODE && ptr->type != XML_COMMENT_NODE; ptr = ptr->next)\n        if (ptr->type == XML_TEXT_NODE)\n            c += ')],
'a configuration element with a comment in the middle of its text','the text after the comment is lost',CORE,XU+r'''
int main() {
    xmlDocPtr d = D("<target>localhost:<!-- port -->9999</target>");
    std::string s = mp::xml::get_text(R(d));
    xmlFreeDoc(d);
    if (s != "localhost:9999") { printf("got %s\n", s.c_str()); return 1; }
    return 0;
}
''')
S('xml-attr-prefix','C28',[('xmlutil.cpp','    auth = values[1];\n','    if (!values[0].empty())\n        auth = values[1];\n')],
'an element with authentication information but without a route, after one that had some','the authentication information of the earlier element is used',CORE,XU+r'''
int main() {
    xmlDocPtr d = D("<v route='a' auth='u/p'/>"), e = D("<v auth='x/y'/>");
    std::string auth, r;
    r = mp::xml::get_route(R(d), auth);
    if (r != "a" || auth != "u/p") return 1;
    r = mp::xml::get_route(R(e), auth);
    xmlFreeDoc(d); xmlFreeDoc(e);
    if (r != "" || auth != "x/y") { printf("got %s\n", auth.c_str()); return 1; }
    return 0;
}
''')
