"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

B = "brel/"
p("C01", "Same filing, same order: results never depend on hash or directory order",
  "Opening the same filing and asking the same question always lists facts, report elements, components, networks, network nodes, labels and errors in the same order, which is derived from the documents themselves. No order a user can see, and no choice of 'first' item, comes from the iteration order of an unordered set, a directory listing, object identities or hashes.",
  ["inputs", "schedules", "programs"], "all filings, all processes (hash seeds), all file systems",
  "Tests run one process with one hash seed and look at set equality or single elements; an order that happens to be stable in one run proves nothing for the next.",
  [B+"parsers/XML/networks/xml_extended_link_parser.py", B+"services/xml/xml_service.py", B+"networks/i_network.py", B+"networks/i_network_node.py", B+"parsers/XHMTL/networks/xhtml_parse_footnote_network.py", B+"parsers/path_loaders/folder_path_loader.py"],
  [("document-order lists and insertion-ordered dicts on the way from parser to repositories", "brel/parsers, brel/data"), ("sorted() around unordered collections", "brel/networks")],
  ["Filing.get_all_facts", "INetwork.get_all_nodes", "Filing.get_all_components"])
p("C02", "Whatever is stored in a repository is found again, and nothing else",
  "Every item accepted by a store of the library (facts, components, networks, errors, files, aspects, characteristics, contexts, report elements, namespaces, address rewrites) is returned by the lookup for its own key and is part of the listing of all items. A membership query answers yes exactly when the matching lookup would succeed, and a lookup by id, key or kind never returns an item stored under a different one.",
  ["inputs", "histories"], "every sequence of insertions and lookups",
  "The existing tests use one or two stubbed lookups; they never list or look up items of unusual shape (facts without id, several networks of one kind).",
  [B+"data/fact/in_memory_fact_repository.py", B+"data/component/in_memory_component_repository.py", B+"data/network/in_memory_network_repository.py", B+"data/errors/in_memory_error_repository.py", B+"data/report_element/in_memory_report_element_repository.py", B+"data/characteristic/in_memory_characteristic_repository.py", B+"data/aspect/in_memory_aspect_repository.py", B+"data/context/in_memory_context_repository.py", B+"data/namespace/in_memory_namespace_repository.py", B+"data/uri_rewrite/in_memory_uri_rewrite_repository.py"],
  [("insert/upsert methods and the containers they write", "brel/data/**/in_memory_*"), ("get/has/list methods reading the same containers", "brel/data/**/in_memory_*")])
p("C03", "Every reportable problem has exactly one entry and can be rendered",
  "Every kind of problem the parsers can report has exactly one catalogue entry with its own area and number, and every place that reports it supplies all the details its message needs. Reporting a problem therefore always records that problem, with its own message, and never fails, is lost or shows up as a different problem.",
  ["inputs", "programs"], "every error code, every report site, every element that can trigger it",
  "Error paths are hardly executed by the tests; a code that is unregistered, registered twice, or whose message needs a detail the call site does not give only fails when that malformed input arrives.",
  [B+"errors/error_factory_registry.py", B+"errors/error_code.py", B+"errors/error_instance.py", B+"data/errors/in_memory_error_repository.py", B+"parsers/utils/error_utils.py"],
  [("catalogue: code -> severity, area, number, message template", "brel/errors/error_factory_registry.py"), ("insertion helper formatting the message", "brel/parsers/utils/error_utils.py"), ("report sites", "brel/parsers/**, brel/services/**")],
  ["Filing.get_all_errors"])
p("C04", "A problem that was detected and reported does not crash the parse afterwards",
  "When the parsers notice that an attribute, child element, id, lookup or conversion is missing or unusable, they report it and go on without it: the rest of the document is still parsed. No code path on which a value is known to be missing goes on to use that value, so a malformed filing leads to reported errors and never to an exception that the check was there to prevent.",
  ["inputs"], "every malformed element; every path after a failed presence check",
  "The tests parse well-formed stubs only; the recovery paths are never executed.",
  [B+"parsers/XML/xml_facts_parser.py", B+"parsers/XML/xml_context_parser.py", B+"parsers/XML/characteristics", B+"parsers/XHMTL/xhtml_parse_facts.py", B+"parsers/XHMTL/elements", B+"parsers/XHMTL/networks/xhtml_parse_footnote_network.py"],
  [("presence checks followed by an error insert and return None / continue", "brel/parsers"), ("functions that return None on failure and their callers' None tests", "brel/parsers")])
p("C05", "No parsed item is built from an unset value or another item's leftovers",
  "Each fact, context, unit, network node or resource produced by a parser is built only from values computed for that very item. On every path a value is set before it is used, and nothing remembered from a previously processed element, or accumulated for it, flows into the next one.",
  ["inputs", "histories"], "every sequence of elements in a document, every branch combination",
  "A leftover only shows when a document mixes element kinds in a particular order; each test parses a single kind of element.",
  [B+"parsers/XHMTL/xhtml_parse_facts.py", B+"parsers/XHMTL/networks/xhtml_parse_footnote_network.py", B+"parsers/XML/xml_facts_parser.py", B+"parsers/XML/networks"],
  [("initialisation inside the loop body of every value used for the item", "brel/parsers")])
p("C06", "Every fact in the document becomes a fact or a reported error",
  "For every fact element of an instance document or inline document (visible, hidden, plain XML; numeric and non-numeric) the parser either stores a fact built from that element, or reports an error about it; it never drops one silently, never stops early, and never stores it twice. The same holds for contexts and units that the parsers walk over.",
  ["inputs"], "every document, every fact element, every branch of the parsers",
  "Tests count nothing: no test parses a whole document with malformed neighbours next to good facts.",
  [B+"parsers/XML/xml_facts_parser.py", B+"parsers/XHMTL/xhtml_parse_facts.py", B+"parsers/XHMTL/elements/parse_hidden.py"],
  [("loop over the document's fact elements: each iteration ends in an upsert or an error insert", "brel/parsers/XML/xml_facts_parser.py, brel/parsers/XHMTL/xhtml_parse_facts.py")],
  ["Filing.get_all_facts", "Filing.get_all_errors"])
p("C07", "A fact carries exactly the data of its own source element",
  "The id, value, precision, decimals, concept, context and unit of a fact come from the corresponding attribute or content of its own element and from no other one, in XML as well as inline documents. The inline value takes the element's format, scale, sign, nil flag and continuation into account; nothing the element states about a fact is silently left out or attached to another slot.",
  ["inputs"], "every fact element, both syntaxes",
  "The tests never compare a parsed fact with its element; a swapped or missing attribute stays invisible.",
  [B+"parsers/XML/xml_facts_parser.py", B+"parsers/XHMTL/xhtml_parse_facts.py", B+"parsers/XHMTL/elements/parse_non_fraction.py", B+"parsers/XHMTL/elements/parse_non_numeric.py", B+"brel_fact.py"],
  [("construction of facts from xml attributes", "parse_fact_from_xml, parse_non_fraction/parse_non_numeric")],
  ["Fact.get_id", "Fact.get_value", "Fact.get_decimals", "Fact.get_precision", "Fact.get_unit", "Fact.get_context"])
p("C08", "Shared dimension values, entities, periods and units are never mixed up",
  "Whenever the parsers reuse a previously built entity, period, unit, dimension value, aspect or report element instead of building a new one, the reused object was built from the same source data: everything that distinguishes two such objects is part of the key under which they are shared, and an object is stored under the same key it is later looked up with. In particular two identifiers from different schemes, or two members of different dimensions, are never shared.",
  ["inputs", "histories"], "every pair of elements in a filing whose sharing keys could collide",
  "A collision needs two contexts that agree in one component and differ in another; the tests parse single elements with a fresh store.",
  [B+"parsers/XML/characteristics/xml_parse_entity.py", B+"parsers/XML/characteristics/xml_parse_period.py", B+"parsers/XML/characteristics/xml_parse_unit.py", B+"parsers/XML/characteristics/xml_parse_explicit_dimension.py", B+"parsers/XML/characteristics/xml_parse_typed_dimension.py"],
  [("has/get/upsert on the characteristic and aspect stores with a computed key", "brel/parsers/XML/characteristics")])
p("C09", "A context holds one value per aspect and its views agree",
  "A context's list of aspects and its characteristics always describe the same thing: each aspect has at most one value, adding a value updates both views or neither, and looking up an aspect returns the value that was added for exactly that aspect. Every period, entity, unit, concept and dimension parsed for a fact ends up in its context, and the per-fact additions for one fact never show up in the context of another.",
  ["inputs", "histories"], "every sequence of additions; every set of facts sharing a context",
  "Sharing a context between facts and adding the same aspect twice are never exercised.",
  [B+"brel_context.py", B+"parsers/XML/xml_context_parser.py", B+"data/context/in_memory_context_repository.py", B+"parsers/XML/xml_facts_parser.py", B+"parsers/XHMTL/xhtml_parse_facts.py"],
  [("characteristics dict and aspect list updated together", "brel/brel_context.py"), ("copy handed out per fact", "brel/data/context/in_memory_context_repository.py")],
  ["Context.get_aspects", "Context.get_characteristic", "Context.has_characteristic"])
p("C10", "Each kind of link becomes its own kind of network and reaches its component",
  "Presentation, calculation, definition, label, reference and footnote links are each turned into networks and nodes of exactly that kind, and a component's presentation, calculation and definition network are the networks of that kind for the component's own role. No network is dropped on the way, attached to another role, or presented as another kind.",
  ["inputs"], "every linkbase, every link and arc kind, every role",
  "Only the calculation network is touched by tests, and through stubs.",
  [B+"parsers/XML/networks/xml_networks_parser.py", B+"parsers/XML/networks/xml_extended_link_parser.py", B+"parsers/XML/xml_component_parser.py", B+"brel_component.py", B+"brel_filing.py"],
  [("dispatch from link element name to network factory", "brel/parsers/XML/networks"), ("component assembly by role and network kind", "brel/parsers/XML/xml_component_parser.py")])
p("C11", "What an arc says reaches the network node unchanged",
  "Order, weight, arcrole, arc name, link role, link name, preferred label of a relationship in a linkbase arrive unaltered (not rounded, not truncated, not swapped) in the network node that represents it, and the node points to the element the locator names. Where an attribute is absent, the default is the one the specification gives and is the same for every kind of network.",
  ["inputs"], "every arc of every linkbase; present, absent and fractional attributes",
  "Tests build nodes by hand with integer orders.",
  [B+"parsers/XML/networks/xml_presentation_network_factory.py", B+"parsers/XML/networks/xml_calculation_network_factory.py", B+"parsers/XML/networks/xml_definition_network_factory.py", B+"parsers/XML/networks/xml_label_network_factory.py", B+"parsers/XML/networks/xml_reference_network_factory.py", B+"parsers/XML/networks/xml_footnote_network_factory.py"],
  [("node construction from the arc element", "create_node/create_internal_node in each network factory")])
p("C12", "Children of a network node are always in ascending numeric order",
  "After every insertion the children of a network node are arranged by their order value, compared as numbers and ascending, for every kind of network and whatever order the arcs were read in. No child is lost or replaced by an insertion.",
  ["inputs", "histories"], "every insertion sequence, every node kind, fractional, negative and equal orders",
  "Tests insert at most a few integer-ordered children, already in order.",
  [B+"networks/i_network_node.py", B+"networks/presentation_network_node.py", B+"networks/calculation_network_node.py", B+"networks/definition_network_node.py", B+"networks/label_network_node.py", B+"networks/reference_network_node.py", B+"networks/footnote_network_node.py"],
  [("_add_child of each node class", "brel/networks/*_node.py")],
  ["INetworkNode.get_children"])
p("C13", "Walking networks, chains and references terminates on cyclic filings",
  "Every traversal of something a filing can make cyclic - network nodes and their children, continuation chains, schema and linkbase references - ends, even if the filing contains a cycle. A cycle never leads to an endless loop or unbounded recursion.",
  ["inputs"], "every reference graph, cyclic or not",
  "All test networks are small trees.",
  [B+"networks/i_network_node.py", B+"networks/i_network.py", B+"networks/calculation_network.py", B+"parsers/XHMTL/elements/parse_continuation_chain.py", B+"services/xml/xml_service.py"],
  [("visited collections in recursive and worklist traversals", "brel/networks, brel/services/xml, brel/parsers")])
p("C14", "Asking questions never changes the filing",
  "Every query on filings, components, facts, contexts, networks, nodes and report elements leaves the parsed data exactly as it was, and modifying a list or dictionary that a query returned does not modify the filing. Repeating a query therefore always gives the same answer.",
  ["inputs", "histories"], "every sequence of queries and every use of their results",
  "A test asks a question once and throws the answer away.",
  [B+"brel_filing.py", B+"brel_component.py", B+"brel_context.py", B+"brel_fact.py", B+"networks", B+"reportelements", B+"characteristics", B+"data"],
  [("getters returning copies of internal containers", "brel/**"), ("absence of writes in query methods", "brel/**")])
p("C15", "Filings opened side by side do not influence each other",
  "Opening or querying one filing never changes what another filing contains or answers: everything parsed belongs to that filing alone. No parsed data is kept in places shared by all filings of a process.",
  ["histories", "schedules"], "every number and interleaving of open filings",
  "Tests open no two filings in one process.",
  [B+"brel_filing.py", B+"contexts/factory.py", B+"data/factory.py", B+"services/factory.py", B+"config/brel_config.py"],
  [("per-filing context with its own repositories", "brel/contexts, brel/data/factory.py"), ("no module-level, class-level or default-argument mutable state", "brel/**")])
p("C16", "A stored document is only ever served for its own address",
  "Two different addresses never share one stored copy, and the copy read for an address is the one stored for that same address, byte for byte; a local document is read as it is now. An address rewritten by a catalog is rewritten the same way everywhere.",
  ["inputs", "histories"], "every pair of addresses; every sequence of filings opened with the same cache",
  "Tests never open two documents whose names differ only in directory or in special characters.",
  [B+"parsers/utils/file_utils.py", B+"services/file/file_service.py", B+"data/file/pyfs_file_repository.py", B+"data/uri_rewrite/in_memory_uri_rewrite_repository.py"],
  [("mapping from address to cache entry name", "uri_to_filename"), ("has_file/get_file/save through that mapping", "brel/services/file, brel/data/file")])
p("C17", "Every output option reaches the setting of the same name, in documented priority",
  "Each option a caller gives when opening a filing, printing, exporting or selecting a label controls exactly the setting it names and nothing else, at every place it is passed along. An explicit value for a call wins over the filing's setting, which wins over the default.",
  ["inputs", "configurations"], "every combination of options",
  "Options are mostly left at their defaults in tests, and swapped booleans with equal defaults behave identically.",
  [B+"brel_filing.py", B+"services/translation/translation_service.py", B+"brel_component.py", B+"utils", B+"config/brel_config.py"],
  [("option resolution and forwarding", "brel/brel_filing.py, brel/services/translation/translation_service.py")])
p("C18", "Every caption the library prints exists, and its files are found from anywhere",
  "Every caption key the code looks up exists in the translation table with a text in every language the table knows; in a translated listing each caption stands beside the value that the plain listing gives under that name; and every data file the library reads from its own package is part of the package and located relative to it, not to the directory the program happens to run in.",
  ["configurations", "inputs"], "every caption key used in the code; every working directory",
  "Tests run from the repository root only and print in one language.",
  [B+"config/brel_config.py", B+"config/translations.csv", B+"services/translation/translation_service.py", B+"brel_component.py", B+"utils"],
  [("caption keys used in code", "brel/**"), ("translation table", "brel/config/translations.csv"), ("package-relative path", "brel/config/brel_config.py")])
p("C19", "Inline value formats: every format has a working, matching rule",
  "Every inline transformation name that is recognised leads to a transformation that exists; every such transformation reads exactly the parts its own pattern captures, in the order its pattern captures them; and every month, era or digit its pattern accepts has an entry in the table used to translate it.",
  ["inputs"], "every registered format, every text its pattern accepts",
  "The tests exercise none of the transformations; the tables hold hundreds of entries.",
  [B+"parsers/XHMTL/xhtml_parse_transformation_registry.py"],
  [("format name tables, regular expressions, month tables", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")])
p("C20", "Every parsing step runs after the steps it depends on, in both syntaxes",
  "For every supported kind of filing, each parsing step runs only after the steps whose results it reads (namespaces, report elements, contexts, units, facts, networks, components), and every step is performed once. XML and inline filings go through the same steps.",
  ["inputs", "programs"], "every filing kind, every step",
  "No test runs the whole pipeline of a filing.",
  [B+"parsers/filing_parser.py", B+"parsers/xml_filing_parser.py", B+"parsers/xhtml_filing_parser.py", B+"parsers/factory.py"],
  [("the step sequence of the two parsers", "brel/parsers")])
p("C21", "Network access and file writes happen only where documented",
  "The library contacts the network only to fetch a remote document that is not already stored, or through the EDGAR helpers a user calls explicitly; it writes files only into its own cache directory or the explicitly requested download; a local filing is never uploaded, fetched or modified.",
  ["inputs", "configurations"], "every operation on every filing",
  "Tests run offline on stubs; an additional request or write would go unnoticed.",
  [B+"services/file/file_service.py", B+"utils/edgar.py", B+"data/file/pyfs_file_repository.py", B+"brel_filing.py"],
  [("download guarded by 'remote' and 'not stored'", "brel/services/file/file_service.py")])
p("C22", "Questions about kinds answer for exactly that kind",
  "Every query that asks for one kind of thing (concepts, abstracts, hypercubes, line items, dimensions, members; facts by concept or aspect; networks or components by role, physical networks) returns all and only the matching items; a report element's kind predicates and exported description agree with what it is.",
  ["inputs"], "every filing, every query",
  "Tests never query a filing that contains all kinds.",
  [B+"brel_filing.py", B+"brel_component.py", B+"brel_context.py", B+"reportelements", B+"services/report_element/report_element_service.py", B+"parsers/XML/xml_report_element_factory.py"],
  [("filters in the query methods", "brel/brel_filing.py"), ("kind flags and exports", "brel/reportelements")])
p("C23", "Names in the two notations are recognised and read consistently",
  "A qualified name is recognised as prefix notation or expanded notation by the same rule with which it is then read: whatever a recogniser accepts, the reader for that notation can read, and it yields the namespace or prefix and local name in their own places. No string is accepted by one notation's recogniser and handed to the other's reader.",
  ["inputs"], "every string",
  "Only one or two well-formed names appear in tests.",
  [B+"qnames/qname.py", B+"qnames/qname_utils.py", B+"qnames/qname_search_params.py"],
  [("regular expressions shared between is_* and from_*", "brel/qnames")])
p("C24", "Every implementation fully honours the interface it is used through",
  "Every concrete report element, network, node, resource, characteristic, repository, service, loader and parser implements all operations of its interfaces with the same parameters, so that code written against the interface works with each of them. No operation is left unimplemented, and none requires an argument that callers of the interface do not pass.",
  ["programs"], "every class and every operation of its interfaces; every call through an interface",
  "Tests call a handful of methods on a handful of classes.",
  [B+"networks", B+"reportelements", B+"characteristics", B+"resource", B+"data", B+"services", B+"parsers/path_loaders"],
  [("abstract base classes and their implementations", "brel/**")])
p("C25", "Equality and hashing agree and cover what identifies a value",
  "Two values that compare equal also have equal hashes, comparing never fails for a value of another type, and equality looks at every component that identifies the value: names by their namespace and local name, aspects, entities by scheme and id, periods by kind and dates, dimension values by dimension and member, units by id and measures.",
  ["inputs"], "all pairs of values",
  "Tests compare a few equal pairs only.",
  [B+"qnames/qname.py", B+"characteristics", B+"reportelements"],
  [("__eq__ and __hash__ definitions", "brel/**")])
p("C26", "An object answers with what it was created from",
  "For facts, characteristics, contexts, components, report elements, resources, networks and nodes, each accessor returns the very value the object was constructed with for that property; no two properties are exchanged between construction, storage and access, and an exported description lists each under its own name.",
  ["inputs", "programs"], "every class, every accessor, every construction site",
  "Tests read back few of the properties, and with values that hide an exchange.",
  [B+"brel_fact.py", B+"brel_component.py", B+"characteristics", B+"reportelements", B+"resource", B+"networks"],
  [("constructors, private fields and accessors", "brel/**")])
p("C27", "Every documented kind of filing source is recognised by all stages",
  "Each kind of source the documentation names (XML files, inline documents, folders, zip archives, remote addresses) is accepted by the stage that locates its documents and by the stage that chooses the parser; everything a locating stage yields can be read by the following stages.",
  ["inputs", "configurations"], "every documented kind of source",
  "Tests do not open filings from files.",
  [B+"parsers/path_loaders", B+"parsers/filing_parser_factory.py", B+"services/xml/xml_file_parser_resolver.py", B+"brel_filing.py"],
  [("extension tests in loaders and resolvers", "brel/parsers/path_loaders, brel/services/xml")])
p("C28", "Calculation checks look at every relationship and every root",
  "Checking a calculation network for balance or aggregation consistency examines every parent-child relationship below every root, including those below nodes that report no value themselves. A single violating relationship is enough to make the network inconsistent, and no relationship is skipped because of where it is or what other relationships yielded.",
  ["inputs"], "every calculation network and every set of facts",
  "The four calculation tests use one-level networks.",
  [B+"networks/calculation_network.py", B+"networks/calculation_network_node.py"],
  [("recursive checks over roots and children", "brel/networks/calculation_network.py")])
p("C29", "Labels and references belong to the element their arc starts from",
  "Every label that a linkbase assigns to a report element is attached to exactly that element, with its own text, language and role, and all of an element's labels remain available; likewise references and footnotes are attached to the element or fact at the start of their arc, with their own content and role. Selecting a label by role or language considers exactly the role and language asked for.",
  ["inputs"], "every label, reference and footnote arc",
  "Tests construct single resources by hand.",
  [B+"parsers/XML/networks/xml_label_network_factory.py", B+"parsers/XML/networks/xml_reference_network_factory.py", B+"parsers/XML/networks/xml_resource_parser.py", B+"services/report_element/report_element_service.py", B+"services/translation/translation_service.py", B+"reportelements"],
  [("resource parsing and attachment", "brel/parsers/XML/networks")])
p("C30", "Opened files are always closed",
  "Every file the library opens while loading, caching or reading resources is closed again on every path, including paths on which reading or parsing fails.",
  ["inputs", "fault_sequences"], "every open call, every exit",
  "A leaked handle is invisible to assertions.",
  [B+"services/file/file_service.py", B+"services/xml/xml_service.py", B+"config/brel_config.py", B+"services/translation/translation_service.py"],
  [("with statements / finally around handles", "brel/**")])
p("C37", "A document means the same whatever prefixes it declares",
  "What is read from a document does not depend on which prefixes it declares for the namespaces of XML Schema, XLink, XBRL, dimensions, linkbases, inline XBRL and the transformation registry, nor on other freedoms XML gives the writer: comments and processing instructions may occur anywhere, and a boolean attribute may be written as true/false or 1/0. Names that the library itself spells with a prefix (paths, attributes, names of elements and formats it compares with) mean the published namespaces, not whatever the document binds the prefix to.",
  ["inputs"], "every path, attribute name, comparison and format lookup of the parsers, whatever the document declares",
  "All test filings use the customary prefixes, under which nothing can go wrong.",
  [B+"parsers/utils/lxml_utils.py", B+"qnames/qname_utils.py", B+"parsers/XML/xml_component_parser.py", B+"parsers/XHMTL/xhtml_parse_facts.py", B+"parsers/XHMTL/elements/", B+"services/factory.py"],
  [("find_elements / find_element / XPath calls", "brel/parsers"), ("names with a prefix", "brel/parsers, brel/qnames")])
p("C38", "Looking something up by name finds exactly what bears the name",
  "Report elements, concepts and facts can be looked up by name: as qualified name, as {URI}local name, as prefix:local name, or by the local name alone. A lookup searches for the very name it is given among all elements (all of the kind asked for), honours each part that is given, takes a part that is not given from what the namespaces of the filing say about the other, finds an element once however many prefixes its namespace has, and is refused when it fits no element or several.",
  ["inputs"], "every form of name, every set of namespaces and elements",
  "Tests look up one or two names that have one prefix and exist once.",
  [B+"services/report_element/report_element_service.py", B+"brel_filing.py", B+"qnames/qname_search_params.py", B+"parsers/utils/iterable_utils.py"],
  [("search by parts of a name", "brel/services/report_element/report_element_service.py"), ("lookups of a filing", "brel/brel_filing.py")])
p("C39", "A report element is what its schema declaration says it is",
  "From an element declaration follow the kind of the report element (concept, member, hypercube, dimension, line items, abstract) and its period type, balance, nillable, data type, id and name, and nothing else decides them. A declaration that is no item, or whose period type, balance, nillable or type is missing or not allowed for a concept, makes no report element. A dimension is typed with the type of the element its typedDomainRef names.",
  ["inputs"], "every combination of abstract, substitution group, type, name, period type, balance, nillable and id",
  "The test filings declare few of the combinations, and most tests look at names only.",
  [B+"parsers/XML/xml_report_element_factory.py", B+"reportelements/", B+"parsers/XML/xml_report_element_parser.py"],
  [("choice of the kind", "brel/parsers/XML/xml_report_element_factory.py"), ("reading of a concept", "brel/reportelements/concept.py"), ("typed domains", "brel/parsers/XML/xml_report_element_parser.py")])
p("C41", "A context says exactly what its own element spells out",
  "The dates of a context's period are the dates written in its own instant, startDate and endDate element, each in its own place and unshifted, and the period is an instant exactly if there is an instant element. The scheme and the identifier of its entity are the scheme attribute and the text of its identifier element. The dimension of a dimension value is the one named by the dimension attribute of its element; the member of an explicit one is named by the text of the same element, the value of a typed one is the text inside it.",
  ["inputs"], "every context of every instance or inline document",
  "The tests build characteristics directly or from one stub each; whether start and end, scheme and identifier, or two dimensions are swapped on the way from the document to the context never shows in them.",
  [B+"parsers/XML/characteristics/xml_parse_period.py", B+"parsers/XML/characteristics/xml_parse_entity.py", B+"parsers/XML/characteristics/xml_parse_explicit_dimension.py", B+"parsers/XML/characteristics/xml_parse_typed_dimension.py", B+"characteristics"],
  [("construction of characteristics from the children of a context", "brel/parsers/XML/characteristics"), ("accessors of the characteristics", "brel/characteristics")],
  ["PeriodCharacteristic.get_start_period", "PeriodCharacteristic.get_end_period", "PeriodCharacteristic.get_instant_period", "EntityCharacteristic.get_schema", "EntityCharacteristic.get_value", "ExplicitDimensionCharacteristic.get_member", "TypedDimensionCharacteristic.get_value"])
p("C40", "Walking over a network reaches every node",
  "The descendants of a node are the node itself, its children and everything below them; the nodes of a network are those below each of its roots; its arc roles are those of all of its nodes. A node is a leaf exactly when it has no children, get_root answers only when there is one root, and get_arc_name has an answer whenever there is a root.",
  ["inputs", "histories"], "every network: any number of roots, any depth, shared nodes",
  "Test networks have one root and are walked by few tests.",
  [B+"networks/i_network.py", B+"networks/i_network_node.py"],
  [("walks", "brel/networks/i_network.py, brel/networks/i_network_node.py")])
# not applicable to static analysis
p("C31", "Inline transformations compute the correct value",
  "For every text accepted by a transformation, the resulting value equals the one the transformation registry specification defines, including scaling, sign and padding of years, months and days.",
  ["inputs"], "all texts accepted by all transformations", "No transformation is tested.",
  [B+"parsers/XHMTL/xhtml_parse_transformation_registry.py", B+"parsers/XHMTL/elements/parse_non_fraction.py"], [("arithmetic and formatting of captured parts", "brel/parsers/XHMTL")])
p("C32", "Calculation checks compute the right sums",
  "A calculation network is reported as consistent exactly if for every summation the reported total equals the weighted sum of the reported contributions within the precision the specification allows.",
  ["inputs"], "all networks and fact values", "Four small examples are tested.",
  [B+"networks/calculation_network.py"], [("weighted sums over fact values", "brel/networks/calculation_network.py")])
p("C33", "Merging partial networks yields the network of the whole",
  "Merging the networks that several linkbase files contribute to one role gives the same network as if all arcs had been in one file, whatever the order in which the files were read.",
  ["inputs", "histories"], "all partitions of the arcs of a role", "No merge is tested.",
  [B+"parsers/utils/network_utils.py"], [("combine_networks", "brel/parsers/utils/network_utils.py")])
p("C34", "The best label is chosen for the preferred languages",
  "For every list of preferred languages and every set of labels, the selected label is the best match by language range and role, falling back in the documented order.",
  ["inputs", "configurations"], "all label sets and language lists", "A single language is tested.",
  [B+"services/translation/translation_service.py"], [("language matching through langcodes distances", "brel/services/translation")])
p("C35", "The whole taxonomy is discovered",
  "Exactly the documents the discovery rules of the specification reach from the entry point are loaded, for every layout of schemas, linkbases and catalogs.",
  ["inputs"], "all document sets", "No discovery test.",
  [B+"services/xml/xml_service.py"], [("reference extraction by XPath", "brel/services/xml/xml_service.py")])
p("C36", "Exported tables contain the facts with the right rows and columns",
  "Data frames and printed tables contain one row per fact with one column per aspect and the right cell contents for every filing.",
  ["inputs"], "all filings and options", "One pretty-print test.",
  [B+"brel_component.py", B+"utils/pprint.py", B+"utils/print_facts.py"], [("pandas / spark conversion", "brel/brel_component.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
