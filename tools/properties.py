NOTE = 'Decided on every run over the clang-resolved program of all source files; sound for the stated rule up to the listed assumptions (no aliasing beyond access paths, inlining depth 8). '
prop('C01', 'State shared between request threads is only touched under one common lock',
 'Whatever number of worker threads serve requests at the same time, every piece of mutable state that several of them can reach (filter tables, counters, caches, process-wide variables) is read and written only while one common mutual-exclusion lock is held. No interleaving of requests can therefore observe or leave such state half changed, or hand two sessions the same identity.',
 ['schedules'], 'all interleavings of any number of worker, expiry and main threads',
 'A data race needs a particular interleaving; the test programs run filters from one thread or compare a handful of schedules.',
 ['src/filter_*.cpp', 'src/thread_pool_observer.cpp', 'include/metaproxy/session.hpp'],
 [('scoped locks around the client tables of each filter', 'src/filter_multi.cpp'), ('identity counter lock', 'include/metaproxy/session.hpp'), ('input/output queue locks', 'src/thread_pool_observer.cpp')],
 NOTE + 'Lock-set analysis; state confined to one claimed session object is judged by C04/C05.')
prop('C02', 'Locks never deadlock and are never held across blocking work',
 'Locks are taken in one global order, no thread takes a lock it already holds, and no thread holds a lock that other threads need while it passes a request on, talks to a peer, sleeps or joins a thread. So no schedule makes requests wait for each other in a circle, and a slow or dead backend delays only its own sessions.',
 ['schedules', 'fault_sequences'], 'all interleavings of threads, with backends that answer late or never',
 'A deadlock or a stall behind a slow peer depends on schedule and timing; the tests use fast in-process backends.',
 ['src/filter_*.cpp', 'src/thread_pool_observer.cpp'],
 [('scoped lock blocks that end before packages move', 'src/filter_session_shared.cpp'), ('release of the table lock around connection set-up', 'src/filter_z3950_client.cpp')],
 NOTE + 'Interprocedural lock-order graph plus may-block effect analysis.')
prop('C03', 'No wake-up is lost: waiting threads re-check, and every change wakes them',
 'A thread that waits for something (a free session, a free backend, queue space, work, shutdown) looks at that condition again under the lock after every wake-up and never sleeps without having looked. Every change that can satisfy a waiting thread is followed by a wake-up that reaches the threads concerned, so no request sleeps for ever on a condition that already holds.',
 ['schedules'], 'all interleavings, including spurious wake-ups and changes made just before the wait',
 'A lost wake-up needs a change between test and sleep; tests do not control this.',
 ['src/thread_pool_observer.cpp', 'src/filter_*.cpp'],
 [('wait loops', 'src/thread_pool_observer.cpp'), ('notify after release', 'src/filter_session_shared.cpp')],
 NOTE + 'The awaited state is inferred from the facts that hold at each wait; each write that can enable it must reach a notify.')
prop('C04', 'One request of a session at a time, and its state is always given back',
 'Filters that keep per-session state let at most one request of a session use it at a time and take it only when no other request has it. On every way to finish a request the state is given back: kept when the session goes on, dropped when the session is closed, and never dropped while the session is still open.',
 ['schedules', 'histories', 'inputs'], 'all request kinds, all sequences of requests in a session, all interleavings of sessions',
 'A forgotten release shows only on the path (request kind, failure) that misses it and only when another request follows.',
 ['src/filter_multi.cpp', 'src/filter_session_shared.cpp', 'src/filter_sort.cpp', 'src/filter_sru_to_z3950.cpp', 'src/filter_virt_db.cpp', 'src/filter_zoom.cpp', 'src/filter_z3950_client.cpp'],
 [('claim and release of the session object', 'src/filter_multi.cpp get_frontend/release_frontend'), ('association queue', 'src/filter_z3950_client.cpp')],
 NOTE + 'Normal returns; exits by exception are excluded by C15.')
prop('C05', 'A pooled backend session has one user, is alive, and is shared only on a match',
 'A pooled backend session is handed to a request only while idle, and each request that takes one returns or removes it exactly once on every path; one whose connection has closed is removed, never returned or pooled. A stored result set is reused only after both its databases and its query compared equal, and backends are shared only between clients whose complete authentication and other information are equal.',
 ['schedules', 'histories', 'fault_sequences', 'inputs'], 'all searches, presents and scans, all backend failures, all pool contents',
 'Leaks and double releases of pool members need a backend failure at a particular step and a later request that notices.',
 ['src/filter_session_shared.cpp'],
 [('use/release/remove of a backend', 'src/filter_session_shared.cpp'), ('pool key order', 'src/filter_session_shared.cpp InitKey')],
 NOTE + 'Ownership typestate over the inlined request paths.')

prop('C13', 'The HTML parser stays inside the document, ends, and reports it all in order',
 'For every NUL-terminated document, however broken, the HTML parser looks at no character behind the end and always moves forward, so it terminates. The text, tag names and attributes it reports lie inside the document and follow each other in order without overlap; nothing is lost or repeated except the white space and delimiters inside tags.',
 ['inputs'], 'every byte string, including unterminated tags, quotes, comments and scripts',
 'Unterminated or nested constructs at the very end of the input are the cases that break, and the tests hold a handful of short documents.',
 ['src/html_parser.cpp'],
 [('scan loops and cursors', 'src/html_parser.cpp parse_str, tagEnd, tagAttrs, skipAttribute')],
 NOTE + 'Affine relations between cursors, lengths and the position of the NUL; names of tags and values of attributes are not interpreted.')
prop('C12', 'Every package visits exactly the filters of its route, in configured order',
 'A package enters at the first filter of its route and each step hands it to exactly the next filter, until the end; a step to a named route continues at that route\'s first filter, and an unknown route name ends processing without calling any filter. A package\'s position is its own: a derived package continues where the original stood, and moving one never moves the other. Starting and stopping reach every filter of every configured route.',
 ['inputs', 'histories'], 'every configuration of routes and every sequence of forward and named-route steps, on originals and derived packages',
 'The routing tests use one or two fixed chains of filters and never derive packages in the middle of a named route.',
 ['src/package.cpp', 'src/router_chain.cpp', 'src/router_flexml.cpp'],
 [('package position and forward step', 'src/package.cpp move'), ('chain position', 'src/router_chain.cpp'), ('route table and positions', 'src/router_flexml.cpp')],
 NOTE + 'Value-numbering decision tables of every step; assumes derived packages are given a route before they are moved, and that a route entry without a filter reference is left out.')
prop('C14', 'Every client session has its own identity for life',
 'Each new session gets an identity that no other session of the process ever had, and every copy of it and every package carrying it keeps that identity. Comparing or ordering sessions looks only at the identity, so state kept per session is never found under another session. A session once closed stays closed in every later copy, and all packages of one client connection carry that connection\'s session.',
 ['histories', 'schedules'], 'any number of sessions, copies, comparisons and packages',
 'Identity mix-ups need copies, re-use or orders of sessions the tests do not build.',
 ['include/metaproxy/session.hpp', 'src/session.cpp', 'src/package.cpp', 'src/filter_frontend_net.cpp'],
 [('identity and closed flag', 'include/metaproxy/session.hpp'), ('session of a package', 'src/package.cpp'), ('per-connection session', 'src/filter_frontend_net.cpp')],
 NOTE + 'Value-numbering decision tables of constructors, comparisons and accessors.')
prop('C28', 'Configuration elements, attributes and values mean exactly what is written',
 'An element or attribute is recognised only when its kind, namespace and complete name agree; an attribute outside the allowed set is refused, and each value ends up under its own attribute. The text of an element is all its text in order, a boolean is true exactly for "true" and "1", a number is the one written, and a default applies only where nothing is written. Looking for the next or first child element never skips, repeats or misreports one.',
 ['inputs'], 'every XML configuration document',
 'The tests read a handful of well-formed configurations; look-alike names, split texts, comments between elements and empty values are not among them.',
 ['src/xmlutil.cpp'],
 [('recognition of elements and attributes', 'src/xmlutil.cpp is_element, is_attribute, parse_attr'), ('values', 'src/xmlutil.cpp get_text, get_bool, get_int, get_route')],
 NOTE + 'Every path of each helper is compared with a reference decision table.')
prop('C24', 'A filter type creates exactly the filter registered under that name',
 'Registering a filter type never replaces one already known, removing one removes only that one, both report truly whether anything changed, and an unknown type is refused. A type is loaded from a module only when it is unknown, from the file and symbol named after it. Every filter of the program is available under its own name and makes its own kind of filter.',
 ['inputs', 'histories'], 'every sequence of registrations, removals, look-ups and loads with any names',
 'Mix-ups need repeated or similar names; the tests register two distinct ones.',
 ['src/factory_filter.cpp', 'src/factory_static.cpp', 'src/filter_*.cpp'],
 [('registry', 'src/factory_filter.cpp'), ('built-in list', 'src/factory_static.cpp'), ('registration records', 'src/filter_*.cpp')],
 NOTE + 'Value-numbering decision tables of the registry functions and a cross-check of all registration records.')
prop('C30', 'The client address a request reports cannot be forged',
 'The client and local address a request reports are those of the connection it arrived on; whatever a client puts into forwarding headers is only put in front of them for the log and never changes them. Every package made for a request, and every package derived from it, carries the origin of that request.',
 ['inputs'], 'every header value, any number of forwarding headers, all derived packages',
 'Forging needs header values with separators in unusual places; the test sets one or two plain addresses.',
 ['src/origin.cpp', 'src/package.cpp', 'src/filter_frontend_net.cpp', 'src/filter_*.cpp'],
 [('address list', 'src/origin.cpp'), ('peer address', 'src/filter_frontend_net.cpp'), ('derived packages', 'src/filter_*.cpp')],
 NOTE + 'String-position analysis of the address list and value flow of every package construction.')
prop('C08', 'A part of a message is only used as the kind it says it is',
 'Messages, queries, records, diagnostics, terms and other parts that come in several kinds carry a mark of their kind. Whatever a client or a target sends, the program looks into such a part, hands it on or keeps it only as the kind its mark names, so no message of an unexpected kind is read as something else. This covers every filter and helper on every path from receiving a message to sending it on.',
 ['inputs', 'histories'], 'every message, of any kind and any mix of kinds inside it, from any client or target',
 'Tests exchange well-formed messages of the usual kinds; a misread part needs a target or client that picks another allowed kind at one particular place.',
 ['src/filter_*.cpp', 'src/util.cpp', 'src/sru_*.cpp', 'include/metaproxy/*.hpp'],
 [('message kinds', 'src/filter_*.cpp process'), ('records and diagnostics', 'src/filter_multi.cpp, src/filter_sort.cpp, src/filter_sd_remove.cpp, src/filter_sru_to_z3950.cpp'), ('helpers', 'src/util.cpp')],
 NOTE + 'Path-sensitive must-facts over whole-program inlined flow graphs; kinds and members are read from the protocol library headers; what the library itself builds is trusted to be of the kind asked for.')
prop('C09', 'A missing part of a message never takes the program down',
 'Parts of a message that the protocol leaves optional, messages that never came, headers that are not there and documents that do not parse are only looked into when they are present. Whatever a client leaves out and whatever a target does not answer, no request ends in a look at something that is not there. The same holds for optional parts of the configuration and of fetched target descriptions.',
 ['inputs', 'histories'], 'every combination of present and absent parts in every message, from any client or target',
 'Tests fill in the optional parts or leave out a few; a crash needs one particular part missing at one particular place.',
 ['src/filter_*.cpp', 'src/util.cpp', 'src/gduutil.cpp', 'src/sru_*.cpp', 'src/url_recipe.cpp', 'src/xmlutil.cpp'],
 [('message parts', 'src/filter_*.cpp process'), ('absent responses', 'src/filter_*.cpp after move'), ('headers and documents', 'src/filter_cgi.cpp, src/filter_http_*.cpp, src/filter_zoom.cpp')],
 NOTE + 'Path-sensitive must-facts over whole-program inlined flow graphs; which parts are optional is read from the protocol library headers; message fields a filter keeps are trusted to be set before they are used.')
prop('C07', 'Every request that reaches a filter gets an outcome',
 'On every path through every filter, a Z39.50 or HTTP request that arrives in an open session is answered, handed to the next filter, given to a connection that settles it, or its session is closed; no client is left waiting for something that will never come. That includes requests of an unexpected kind, refused requests and failed targets. A connection that ends the wait for a pending request, because of a response, a failure or a timeout, gives that request its response, and a failed connection always ends the wait.',
 ['inputs', 'histories'], 'every kind of request at every point of a session, every outcome of every target',
 'Tests send expected requests to working targets; a forgotten answer on one path shows up as a client that waits for ever.',
 ['src/filter_*.cpp', 'src/package.cpp', 'src/util.cpp'],
 [('request handlers', 'src/filter_*.cpp process'), ('connection call-backs', 'src/filter_z3950_client.cpp')],
 NOTE + 'Path-sensitive typestate over whole-program inlined flow graphs. A response that is copied from a target counts as an answer: the filter behind it is held to the same rule. Loops over the set of targets are taken to run at least once; exceptions are outside.')
prop('C22', 'Nothing is looked at before it has been set',
 'Every member of every object the program makes, every part of a message it builds in raw memory and every local variable is given a value on every path before anything can look at it. What a request gets to see therefore never depends on what earlier requests left behind in memory.',
 ['inputs', 'histories'], 'all paths through constructors, creation sites and functions',
 'Fresh memory is mostly zero, so a test sees the wanted value by accident; whether a stale one shows depends on what ran before.',
 ['src/*.cpp', 'include/metaproxy/*.hpp'],
 [('constructors', 'src/filter_*.cpp, include/metaproxy/session.hpp'), ('message parts made with odr_malloc', 'src/filter_zoom.cpp, src/filter_multi.cpp'), ('local variables', 'src/html_parser.cpp')],
 NOTE + 'Definite assignment per path; elements of arrays are not told apart and functions outside the repository are taken to set what they are given to set.')
prop('C19', 'Answers fit their request',
 'Every answer the program makes is of the kind that the request it answers calls for, and it carries the reference that the client gave with that request, whichever part of the program makes it. An answer that another request of the program\'s own was given is not passed on to a client in the place of the answer to its request. Where the reference is kept is known for every kind of message that has one.',
 ['inputs', 'histories'], 'all paths from where an answer is made to where it is given, in every filter, for every kind of request',
 'A client that sends no reference never misses it, so tests that do not send one pass; answers made in rare failure paths are not tested.',
 ['src/filter_*.cpp', 'src/util.cpp'],
 [('makers of answers', 'src/util.cpp'), ('answers made by filters', 'src/filter_multi.cpp, src/filter_session_shared.cpp, src/filter_virt_db.cpp, src/filter_sort.cpp, src/filter_present_chunk.cpp')],
 NOTE + 'Path-sensitive on kind and origin of messages; what a target answers is taken to carry the reference it was sent.')
prop('C11', 'Everything a configuration says is understood or refused',
 'Every element the program reads settings from, and every attribute it reads there, is either one it knows or makes it refuse the configuration, wherever it stands in its list; nothing is skipped or left over. Filters and routes are defined once, and a reference to a filter, filter type or route that does not exist is refused, at any depth of nesting. Every element and attribute of the published schemas is known to the filter it belongs to.',
 ['inputs'], 'every configuration document: all orders, repetitions and nestings of known and unknown elements and attributes',
 'The tests hold a few correct and a few wrong configurations; an ignored setting shows only when that very place is misspelled.',
 ['src/router_flexml.cpp', 'src/filter_*.cpp', 'src/xmlutil.cpp', 'xml/schema/*.rnc'],
 [('route and filter tables', 'src/router_flexml.cpp'), ('configure functions', 'src/filter_*.cpp')],
 NOTE + 'One symbolic round of every configuration loop; attributes of elements that hold only text are not covered.')

na('C40', 'Merged result sets contain every record of every target exactly once',
 'A search over several targets reports the sum of their hits, and presenting any range of the merged set returns every record of every target exactly once, in the configured merge order, whatever ranges and order the client asks for.',
 ['inputs', 'histories'], 'all numbers of targets, hit counts, present ranges and merge orders',
 'Tests combine two targets and a few ranges.',
 ['src/filter_multi.cpp'], [('position map and merge', 'src/filter_multi.cpp')],
 'The claim is about sums and orders of run-time numbers stored in lists of unbounded length (hits per target, positions reached); no dataflow fact in reach bounds them, and the checks of kinds, claims and outcomes (C04, C07, C08) cover what is static about the filter.')
na('C41', 'A translated query means the same as the original',
 'CQL to PQF, query rewriting and the SRU front end preserve the meaning of every query: the translated query matches the same records as the one the client sent, within the configured field mapping.',
 ['inputs'], 'all query trees and all rewriting rules',
 'Query trees are unbounded; tests hold a few.',
 ['src/filter_cql_rpn.cpp', 'src/filter_query_rewrite.cpp', 'src/filter_sru_to_z3950.cpp'], [('conversion calls', 'src/filter_cql_rpn.cpp')],
 'The translation is done by YAZ and by XSLT programs of the configuration, which are data at run time and not source of this repository; what remains here is passing trees on, judged by C08 and C09.')
na('C42', 'Character set conversion loses and invents no characters',
 'Terms, diagnostics and records converted between character sets denote the same characters afterwards, for every input and every pair of character sets.',
 ['inputs'], 'all byte strings, all pairs of character sets',
 'Conversions differ for rare characters and at buffer ends.',
 ['src/filter_query_rewrite.cpp', 'src/filter_record_transform.cpp'], [('iconv descriptors', 'src/filter_record_transform.cpp')],
 'The conversion tables are iconv\'s, selected by run-time names; the source here has no construct whose analysis could decide equality of characters.')
na('C43', 'Sorted result sets are in key order and keep every record',
 'The records returned by the sort filter are those of the backend, each exactly once, ordered by the configured key.',
 ['inputs', 'histories'], 'all record contents and present ranges',
 'Order depends on contents of records.',
 ['src/filter_sort.cpp'], [('sorted record list', 'src/filter_sort.cpp')],
 'Order among run-time record contents held in a standard container; the comparison is std::string\'s over text found by an XPath of the configuration.')
na('C44', 'Idle sessions are closed after their time-out and not before',
 'A frontend or pooled backend session is closed when it has been idle for its configured time, not earlier, and the configured numbers of sessions are never exceeded.',
 ['schedules', 'histories'], 'all timings of requests and expiry runs',
 'Depends on wall-clock time over long runs.',
 ['src/filter_session_shared.cpp', 'src/filter_frontend_net.cpp'], [('expiry thread', 'src/filter_session_shared.cpp')],
 'A statement about elapsed wall-clock time and about the sizes of run-time lists; a static rule can see the comparison with the clock but not bound what it observes. Wake-ups and lock handling of the expiry thread are C01-C03.')
na('C45', 'Rewritten web content leads to the same resources as the original',
 'Links, cookies and redirects in content that passes the HTTP rewriting filter lead the client, by way of the proxy, to the same resources as the original would have, and nothing else in the content changes.',
 ['inputs'], 'all documents and all rewriting rules',
 'Both rules and documents are unbounded.',
 ['src/filter_http_rewrite.cpp'], [('rule application', 'src/filter_http_rewrite.cpp')],
 'The rules are regular expressions of the configuration, applied to run-time text by a library; the effect of a rule is not in the source. The parser that splits the content is decided by C13.')
