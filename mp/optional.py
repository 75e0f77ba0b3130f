"""Fields of the protocol library's structures that may be absent (marked OPT in the installed headers) and library
   functions whose result or argument may be null."""
import re, os, glob

_opt = None
def optional_fields():
    """{(struct, field)}"""
    global _opt
    if _opt is not None: return _opt
    _opt = {('_xmlAttr', 'children'), ('_xmlAttr', 'ns'), ('_xmlAttr', 'next'), ('_xmlNode', 'children'), ('_xmlNode', 'next'), ('_xmlNode', 'properties'), ('_xmlNode', 'ns'), ('_xmlNode', 'parent'), ('_xmlNode', 'prev')}
    for p in sorted(glob.glob('/usr/include/yaz/*.h')):
        st = None
        with open(p, errors='replace') as f:
            for l in f:
                m = re.match(r'\s*(?:typedef\s+)?struct\s+(\w+)\s*\{?\s*$', l)
                if m and not l.rstrip().endswith(';'): st = m.group(1)
                elif re.match(r'\}', l): st = None
                elif st:
                    m = re.match(r'\s+[\w\s]+?\*+\s*(\w+)\s*;\s*/\*.*\bOPT\b', l)
                    if m: _opt.add((st, m.group(1)))
    return _opt

# results that may be null: function -> why
MAYNULL = {
    'z_HTTP_header_lookup': 'the header may be missing', 'z_HTTP_header_remove': 'the header may be missing',
    'strchr': 'the character may be missing', 'strrchr': 'the character may be missing', 'strstr': 'the text may be missing',
    'xmlStrchr': 'the character may be missing', 'xmlStrstr': 'the text may be missing',
    'xmlParseMemory': 'the document may not parse', 'xmlReadMemory': 'the document may not parse', 'xmlParseFile': 'the document may not parse', 'xmlReadFile': 'the document may not parse',
    'xmlDocGetRootElement': 'the document may have no root', 'xmlNodeGetContent': 'there may be no content', 'xmlGetProp': 'the attribute may be missing',
    'fopen': 'the file may not open', 'getenv': 'the variable may be missing', 'opendir': 'the directory may not open',
    'yaz_oid_to_z3950_oid': 'unknown', 'get_searchbatch': '',
    'yaz_iconv_open': 'the character set may be unknown', 'xsltParseStylesheetFile': 'may not parse', 'xsltParseStylesheetDoc': 'may not parse', 'xsltApplyStylesheet': 'may fail',
    'odr_getbuf': '', 'yaz_string_to_oid_odr': 'the name may be unknown', 'yaz_string_to_oid': 'the name may be unknown',
    'yaz_oid_to_string': '', 'cs_create': '', 'getpwnam': 'the user may be unknown', 'localtime': '', 'gmtime': '',
    'z_soap_error': '',
    'ccl_find_str': '', 'cql_transform_open_fname': 'the file may not open',
    'yaz_query_to_wrbuf': '',
}
for k in [k for k, v in MAYNULL.items() if not v]: del MAYNULL[k]

# functions that look into the C string or structure they are given: name -> argument positions
DEREF = {
    'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strcpy': (0, 1), 'strcat': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1),
    'strtol': (0,), 'atoi': (0,), 'atol': (0,), 'strtoul': (0,), 'yaz_matchstr': (0, 1), 'memcpy': (0, 1), 'xmlStrlen': (), 'odr_strdup': (1,), 'nmem_strdup': (1,), 'xstrdup': (0,),
    'odr_oidcpy': (), 'oid_oidcmp': (0, 1), 'wrbuf_puts': (1,), 'fclose': (0,), 'fread': (3,), 'fgets': (2,), 'odr_atoi': (0,), 'sscanf': (0,), 'setenv': (0, 1), 'odr_oiddup': (1,), 'yaz_encode_uri_component': (1,), 'std::string_view': (),
}
