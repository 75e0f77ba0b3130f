import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
HP='''
#include "html_parser.hpp"
#include <string>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
namespace mp = metaproxy_1;
struct Ev : public mp::HTMLParserEvent {
    std::string out;
    void openTagStart(const char *tag, int l) { out += "<"; out.append(tag, l); }
    void anyTagEnd(const char *, int, int c) { out += c ? "/>" : ">"; }
    void attribute(const char *, int, const char *a, int al, const char *v, int vl, const char *sep) {
        out += " "; out.append(a, al); if (v) { out += "="; out += sep; out.append(v, vl); out += sep; } }
    void closeTag(const char *t, int l) { out += "</"; out.append(t, l); }
    void text(const char *t, int l) { out.append(t, l); }
};
static std::string run(const char *s) { mp::HTMLParser p; Ev e; alarm(20); p.parse(e, s); return e.out; }
'''
S('html-open-quote','C13',[('html_parser.cpp','            if (cp[i])\n                i++;\n        }\n','            i++;\n        }\n')],
'a document that ends inside a quoted attribute value','the parser steps over the end of the document and reports whatever lies behind it in memory',['html_parser'],HP+r'''
int main() {
    static char buf[64];
    memcpy(buf, "<p><a href=\"x\0 class=secret>leak</a>", 37);
    std::string o = run(buf);
    if (o.find("leak") != std::string::npos || o.find("secret") != std::string::npos) { printf("got %s\n", o.c_str()); return 1; }
    if (run("<p><a href=\"x\">t</a>") != "<p><a href=\"x\">t</a>") return 1;
    return 0;
}
''')
S('html-tag-junk','C13',[('html_parser.cpp','    if (i > 0)\n    {\n        if (m_verbose)','    if (i > 0 && cp[i])\n    {\n        if (m_verbose)')],
'a document that ends inside an end tag with trailing characters','the trailing characters of the document are neither reported nor kept',['html_parser'],HP+r'''
int main() {
    std::string o = run("<p>text</p trailing");
    if (o.find("trailing") == std::string::npos) { printf("got %s\n", o.c_str()); return 1; }
    return 0;
}
''')
