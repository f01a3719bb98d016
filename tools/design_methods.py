"""Hand-written part of DESIGN.md: for each property what is analysed, against which oracle, within what bounds."""
HOW = {
"C01": ("Every expression of the package whose iteration order is not determined by the documents is a source: sets and frozensets (by mypy type and by constructor), os.listdir/glob/scandir, as_completed, id()/hash()/random. Values are followed through locals, fields, parameters and results to every place where an order comes into being: list(), tuple(), a loop whose body appends or returns early, join, next(iter()), indexing, min/max with ties.",
        "Sanitisers are sorted() with a total key and order-insensitive consumers (len, any, all, membership, set algebra).", "Flow-insensitive for fields, flow-sensitive for locals; lxml, zip, csv and dict order are trusted to be deterministic."),
"C02": ("For each repository class two symbolic items are inserted into an abstract store (fields as containers of symbolic entries) and each lookup, listing and membership query is interpreted on the result. A second scenario stores two items under one key (the accessors of both answer alike), and address rewriting is read for a prefix test, one exchange and the longest prefix first.",
        "The oracle is the map law: get(key(x)) = x, x in list(), has(key(x)), and nothing answered under another key. For a key the rule also asks that it is the item's own accessor, unshortened.", "Two items suffice because the stores are keyed containers without size-dependent code."),
"C03": ("The catalogue in error_factory_registry is read as data from the syntax tree; report sites are found by value flow (the code may be a parameter).",
        "The oracle is exact table agreement: one entry per code, one (area, number) per code, every placeholder of the message template supplied by keyword at each site.", "Exact."),
"C04": ("Control-flow graphs with exception edges of every function reachable from opening a filing. Facts tracked: 'may be None', 'key tested on this path', 'index in range', 'handler covers'. Preconditions that a function does not establish are pushed to its callers.",
        "The oracle is the documented behaviour of dict/list/lxml lookups and of the repository interfaces (which lookups raise). R7 uses mypy types (an element as a condition), R8 follows every None answer of a reporting function back to a report.", "Exceptions raised on purpose as ValueError for unusable data are outside the claim."),
"C05": ("Definite assignment and loop-carried reaching definitions on the control-flow graph of every function, late binding of loop variables in lambdas/generators, and growth of containers created outside a loop and read as a whole inside it.",
        "Every read of a local must be reached only by definitions of the same round, unless the value is meant to be carried (it is updated from itself or used after the loop).", "Fields of long-lived objects are C02/C08/C09."),
"C06": ("Each loop that stores facts, contexts or units is walked disjunctively: per round the element is 'open' until an upsert or an error insert settles it. The slice of the selection expression is evaluated against the fact elements the two specifications define.",
        "Automaton open -> stored | reported; a round may end only in a settled state, exactly once stored, the loop may not be left early.", "Whether the value that is stored is right is C07."),
"C07": ("Both fact-parsing steps are interpreted from their entry to each Fact construction on symbolic documents; each slot of the fact is a term whose leaves are attributes and contents of elements.",
        "Table: slot -> attribute/content of the fact's own element. Modifiers must appear among the leaves or conditions of an inline value.", "How a format computes a value is C19/C31."),
"C08": ("Every has/get/upsert on a shared store (and every local cache): the leaves of the stored object are compared with the leaves of the key it is stored under; the key used for asking is compared with the one used for storing; concatenated keys must separate their parts.",
        "Leaves(object) must be covered by leaves(key), or by the element the key identifies.", "A prefix is assumed to denote one namespace per filing."),
"C09": ("The context class is interpreted on symbolic additions (list and dictionary must change under the same condition), the parsing steps are followed to every addition.",
        "Map law per aspect; provenance of each added value is a child of the context's own element, in segment as well as scenario.", "-"),
"C10": ("The network steps of both parsers are interpreted; for each of the six kinds of link the classes of the networks and nodes that are built, the store calls they reach and the key by which networks are combined are collected; component slots are followed back to the filter that chose the network.",
        "Table link kind -> network class, node class, stored forms; component slot -> kind and role.", "-"),
"C11": ("Every node construction is interpreted per scenario (root or inner node; attribute present or absent). Each property of the node must be the very term xa(arc, attribute) (number conversion allowed).",
        "Table of arc attributes and node accessors; XBRL default of order is 1; direction from 'from' to 'to'.", "Rounding, casts and defaults appear as other terms and are violations."),
"C12": ("Child insertion of each concrete node class is interpreted with a typestate sorted/unsorted on the list of children.", "Sorted by the node's own order value after each insertion; nothing removed.", "Trusts list.sort, sorted, bisect.insort."),
"C13": ("All while loops and all cycles of the resolved call graph are enumerated and classified: structural descent (child, parent, slice), or a visited test that dominates the step and whose collection grows.",
        "The property is a termination argument per loop; the cycle search in the network factory is additionally checked for completeness (follows all arcs at any depth).", "Termination inside libraries is trusted."),
"C14": ("Every public query of the data model, repositories and services is interpreted on its class; writes to anything that existed before, and results that alias a field's container, are reported; effects propagate through interface calls.",
        "Allowed: memoisation into a field that is only read by the same query.", "-"),
"C15": ("Labels for module variables, class variables and default arguments are propagated interprocedurally to every mutation; rebinding of globals, lru_cache and process settings are listed.", "No mutation reaches a shared root, except class-level setters of the output settings.", "-"),
"C16": ("The address is followed from the loader through rewriting, resolving, the file manager and the store; the entry name is analysed for injectivity (a digest or reversible encoding of the whole address).", "Same name function for store/test/read, same address per document, bytes stored as read.", "Trusts the digest to be collision free."),
"C17": ("Every export operation is interpreted once for every assignment of options given/not given.", "Priority call > filing > global for the setting of the same name; RFC 4647-like match in full or by primary part.", "-"),
"C18": ("Caption keys are evaluated by constant propagation (including f-string holes that range over tables) and compared with translations.csv read as data; plain and translated listing of each class are paired.", "Table agreement, and equality of the object state each pair is made from.", "-"),
"C19": ("The table of formats and the regular expressions are read from the syntax tree; each expression's parse tree is enumerated (finite groups exactly, unbounded runs by witnesses) and joined with the tables that translate what was matched.", "Names of the formats (order of parts, separators), twelve months per language, eras consecutive.", "The arithmetic of scaling is C31."),
"C20": ("Linear trace of repository reads and writes over the call graph of each parser; stages and their dominance in the control-flow graph.", "Writers of a repository before its readers; each stage once on every path; inline = XML stages.", "-"),
"C21": ("Every call that requests, writes, removes, runs or parses is enumerated; address or path provenance and the entailed path condition (propositional) are computed.", "Allowed: requests to the address asked for under 'remote and not stored'; writes below brel's folder or a temporary one; removal of temporary files only; no eval/exec/pickle; parsers without network or entity resolution.", "Links of archives are resolved by zipfile."),
"C22": ("Queries are brought into a normal form (source collection, kinds, conditions) by structural evaluation of comprehensions, filters, loops and helpers.", "A table name-of-query -> normal form, and the type tables of XBRL 2.1.", "Queries without normal form are listed in the evidence and not judged."),
"C23": ("The guards of recognisers and readers are turned into finite automata; inclusion, disjointness and emptiness are decided on them.", "The three notations {uri}local, prefix:local, local.", "Only regular conditions."),
"C24": ("Class hierarchy, override signatures and mypy's own diagnostics of interface use.", "Liskov on signatures; no NotImplementedError in instantiated classes.", "-"),
"C25": ("Each __eq__/__hash__ is evaluated on two symbolic values that differ in one component at a time.", "Equal iff all identifying components are equal; hash uses only compared components.", "-"),
"C26": ("Each class is constructed with symbolic arguments and each accessor and exported entry is evaluated.", "Accessor name <-> constructor parameter.", "-"),
"C27": ("Sets of file-name suffixes accepted by locators, readers and parser choice are computed by constant propagation and compared.", "Set inclusion between stages and the documented kinds of source.", "Suffixes only."),
"C28": ("Path coverage of the calculation walks and truth table of the balance condition.", "XBRL 2.1 table of balance/weight combinations.", "The sums are C32."),
"C29": ("Resource parsing, label attachment and label selection are interpreted; text, language, role and target are followed to their element.", "Table slot -> attribute/content; language inherited from the nearest ancestor.", "-"),
"C30": ("Ownership of opened files on structured control flow with summaries.", "Closed or handed on, on every path.", "-"),
"C37": ("Every literal path, attribute name, tag comparison and format name with a prefix is traced to the mapping it is evaluated with.", "Published namespace URIs.", "-"),
"C38": ("The name search is interpreted for each of the four combinations of URI and prefix given.", "Exactly the parts asked for.", "-"),
"C39": ("The function that makes report elements is interpreted for each row of a decision table (about 50 combinations of declared attributes).", "XBRL 2.1, Dimensions 1.0 and the LineItems convention as a decision table.", "Attribute values outside the table."),
"C40": ("The walks of INetworkNode and INetwork are interpreted on an arbitrary node; the result is an inductive set.", "Descendants = self + children + below; leaf iff no children; root only if single.", "Repetitions are not judged."),
"C41": ("Each construction of a period, entity, explicit or typed dimension value reached from both fact steps is evaluated through its accessors back to element and attribute.", "Table accessor -> element and attribute of XBRL 2.1 section 4.7 and Dimensions 1.0; no arithmetic or day-first reading in between.", "dateutil is trusted for ISO dates."),
}
