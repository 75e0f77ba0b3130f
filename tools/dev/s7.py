import sys; sys.path.insert(0,'/verif/tools/dev')
from seed import seed
which=sys.argv[1:]
def S(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
CORE=['package','router_chain','session','origin','filter','xmlutil','util']
S('kind-scan-term','C08',[('filter_multi.cpp','''                if (position <= 0)
                    i = 0;
                else
                    i = position-1;
                for ( ; i<num_entries; i++)
                {
                    Z_Entry *ent = entries[i];

                    if (ent->which == Z_Entry_termInfo)
                    {
                        ScanTermInfo my;

                        Odr_int *occur = ent->u.termInfo->globalOccurrences;
                        my.m_count = occur ? *occur : 0;

                        if (ent->u.termInfo->term->which == Z_Term_general)''','''                if (position <= 0)
                    i = 0;
                else
                    i = position-1;
                for ( ; i<num_entries; i++)
                {
                    Z_Entry *ent = entries[i];

                    if (ent->which == Z_Entry_termInfo)
                    {
                        ScanTermInfo my;

                        Odr_int *occur = ent->u.termInfo->globalOccurrences;
                        my.m_count = occur ? *occur : 0;

                        if (ent->u.termInfo->term->which != Z_Term_numeric)''')],
'a target whose scan response holds a term given as character string','the term is read as an octet string and the program crashes',CORE+['filter_multi'],r'''
#include "kit.hpp"
#include "filter_multi.hpp"
int main() {
    mp::filter::Multi f; Backend b;
    b.f = [](mp::Package &p) {
        Z_APDU *q = req_of(p);
        if (!q || q->which != Z_APDU_scanRequest) { answer(p); return; }
        mp::odr o;
        Z_APDU *a = o.create_scanResponse(q, 0, 0);
        Z_ScanResponse *r = a->u.scanResponse;
        r->positionOfTerm = odr_intdup(o, 1);
        if (!r->entries) { r->entries = (Z_ListEntries *) odr_malloc(o, sizeof(Z_ListEntries)); memset(r->entries, 0, sizeof(Z_ListEntries)); }
        r->entries->num_nonsurrogateDiagnostics = 0; r->entries->nonsurrogateDiagnostics = 0;
        r->entries->num_entries = 2;
        r->entries->entries = (Z_Entry **) odr_malloc(o, 2 * sizeof(Z_Entry *));
        for (int i = 0; i < 2; i++) {
            Z_Entry *e = r->entries->entries[i] = (Z_Entry *) odr_malloc(o, sizeof(Z_Entry));
            e->which = Z_Entry_termInfo;
            Z_TermInfo *t = e->u.termInfo = (Z_TermInfo *) odr_malloc(o, sizeof(Z_TermInfo));
            memset(t, 0, sizeof *t);
            t->globalOccurrences = odr_intdup(o, 3);
            t->term = (Z_Term *) odr_malloc(o, sizeof(Z_Term));
            if (i) { t->term->which = Z_Term_characterString; t->term->u.characterString = odr_strdup(o, "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"); }
            else { t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(o, "abc", 3); }
        }
        p.response() = a;
    };
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o;
    { mp::odr odr; mp::Package p(s, o); p.router(r); 
      Z_APDU *a = mk_init(odr);
      mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, odr, "localhost:1", 1);
      p.request() = a; p.move();
      if (!res_of(p) || res_of(p)->which != Z_APDU_initResponse) return fail("init"); }
    { mp::odr odr; mp::Package p(s, o); p.router(r);
      Z_APDU *a = zget_APDU(odr, Z_APDU_scanRequest);
      Z_ScanRequest *q = a->u.scanRequest;
      mp::util::set_databases_from_zurl(odr, "localhost:1/Default", &q->num_databaseNames, &q->databaseNames);
      Z_AttributesPlusTerm *t = q->termListAndStartPoint = (Z_AttributesPlusTerm *) odr_malloc(odr, sizeof *t);
      t->attributes = (Z_AttributeList *) odr_malloc(odr, sizeof(Z_AttributeList));
      t->attributes->num_attributes = 0; t->attributes->attributes = (Z_AttributeElement **) odr_nullval();
      t->term = (Z_Term *) odr_malloc(odr, sizeof(Z_Term)); t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(odr, "a", 1);
      q->preferredPositionInResponse = odr_intdup(odr, 1);
      *q->numberOfTermsRequested = 5;
      p.request() = a;
      p.move();
      Z_APDU *x = res_of(p);
      if (!x || x->which != Z_APDU_scanResponse) return fail("scan");
      Z_ListEntries *l = x->u.scanResponse->entries;
      if (!l || l->num_entries != 1) return fail("entries"); }
    return 0;
}
''')

S('opt-scan-count','C09',[('filter_multi.cpp','''                            if (it != entries_after.end() && my == *it)
                            {
                                it->m_count += my.m_count;''','''                            if (it != entries_after.end() && my == *it)
                            {
                                it->m_count += *occur;''')],
'two targets (or entries) with the same term, the later one without an occurrence count','the program crashes on the missing count',CORE+['filter_multi'],r'''

#include "kit.hpp"
#include "filter_multi.hpp"
int main() {
    mp::filter::Multi f; Backend b;
    b.f = [](mp::Package &p) {
        Z_APDU *q = req_of(p);
        if (!q || q->which != Z_APDU_scanRequest) { answer(p); return; }
        mp::odr o;
        Z_APDU *a = o.create_scanResponse(q, 0, 0);
        Z_ScanResponse *r = a->u.scanResponse;
        r->positionOfTerm = odr_intdup(o, 1);
        if (!r->entries) { r->entries = (Z_ListEntries *) odr_malloc(o, sizeof(Z_ListEntries)); memset(r->entries, 0, sizeof(Z_ListEntries)); }
        r->entries->num_nonsurrogateDiagnostics = 0; r->entries->nonsurrogateDiagnostics = 0;
        r->entries->num_entries = 2;
        r->entries->entries = (Z_Entry **) odr_malloc(o, 2 * sizeof(Z_Entry *));
        for (int i = 0; i < 2; i++) {
            Z_Entry *e = r->entries->entries[i] = (Z_Entry *) odr_malloc(o, sizeof(Z_Entry));
            e->which = Z_Entry_termInfo;
            Z_TermInfo *t = e->u.termInfo = (Z_TermInfo *) odr_malloc(o, sizeof(Z_TermInfo));
            memset(t, 0, sizeof *t);
            if (!i) t->globalOccurrences = odr_intdup(o, 3);
            t->term = (Z_Term *) odr_malloc(o, sizeof(Z_Term));
            t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(o, "abc", 3);
        }
        p.response() = a;
    };
    mp::RouterChain r; r.append(f).append(b);
    deadline(20);
    mp::Session s; mp::Origin o;
    { mp::odr odr; mp::Package p(s, o); p.router(r); 
      Z_APDU *a = mk_init(odr);
      mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, odr, "localhost:1", 1);
      p.request() = a; p.move();
      if (!res_of(p) || res_of(p)->which != Z_APDU_initResponse) return fail("init"); }
    { mp::odr odr; mp::Package p(s, o); p.router(r);
      Z_APDU *a = zget_APDU(odr, Z_APDU_scanRequest);
      Z_ScanRequest *q = a->u.scanRequest;
      mp::util::set_databases_from_zurl(odr, "localhost:1/Default", &q->num_databaseNames, &q->databaseNames);
      Z_AttributesPlusTerm *t = q->termListAndStartPoint = (Z_AttributesPlusTerm *) odr_malloc(odr, sizeof *t);
      t->attributes = (Z_AttributeList *) odr_malloc(odr, sizeof(Z_AttributeList));
      t->attributes->num_attributes = 0; t->attributes->attributes = (Z_AttributeElement **) odr_nullval();
      t->term = (Z_Term *) odr_malloc(odr, sizeof(Z_Term)); t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(odr, "a", 1);
      q->preferredPositionInResponse = odr_intdup(odr, 1);
      *q->numberOfTermsRequested = 5;
      p.request() = a;
      p.move();
      Z_APDU *x = res_of(p);
      if (!x || x->which != Z_APDU_scanResponse) return fail("scan");
      Z_ListEntries *l = x->u.scanResponse->entries;
      if (!l || l->num_entries != 1) return fail("entries"); }
    return 0;
}
''')
S('opt-no-records','C09',[('filter_sd_remove.cpp','''                && sr_res->records
                && sr_res->records->which''','''                && sr_res->records->which''')],
'a search response that announces records but holds none','the program crashes on the missing records',CORE+['filter_sd_remove'],r'''
#include "kit.hpp"
extern "C" struct metaproxy_1_filter_struct metaproxy_1_filter_sd_remove;
int main() {
    mp::filter::Base *fp = metaproxy_1_filter_sd_remove.creator(); Backend b;
    b.f = [](mp::Package &p) {
        mp::odr o;
        Z_APDU *a = o.create_searchResponse(req_of(p), 0, 0);
        *a->u.searchResponse->resultCount = 7;
        *a->u.searchResponse->numberOfRecordsReturned = 2;
        a->u.searchResponse->records = 0;
        p.response() = a;
    };
    mp::RouterChain r; r.append(*fp).append(b);
    deadline(20);
    mp::Session s; mp::Origin o; mp::odr odr;
    mp::Package p(s, o); p.router(r);
    p.request() = mk_search(odr, "Default", "computer");
    p.move();
    Z_APDU *a = res_of(p);
    return a && a->which == Z_APDU_searchResponse && *a->u.searchResponse->resultCount == 7 ? 0 : 1;
}
''')
