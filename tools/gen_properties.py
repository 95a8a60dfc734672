#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

NS, NL, SO, VA = "src/Nodeset.c", "src/NodesetLoader.c", "src/Sort.c", "src/Value.c"
IR, PA, CA = "src/InternalRefService.c", "src/Parser.c", "src/CharAllocator.c"
B = "backends/open62541/src/"

p("C01", "Node attributes are delivered exactly as written, or with their default",
  "After importFile and sort, the node delivered for a node element carries exactly the NodeId, BrowseName, DisplayName, Description, InverseName (each with locale) and class-specific attributes (ParentNodeId, DataType, ValueRank, ArrayDimensions, AccessLevel, UserAccessLevel, Historizing, MinimumSamplingInterval, EventNotifier, IsAbstract, Symmetric, Executable, UserExecutable, ContainsNoLoops) that the document gives it, after XML unescaping. "
  "An absent attribute has the default of the UANodeSet schema (EventNotifier 0, DataType i=24, ValueRank -1, ArrayDimensions empty, AccessLevel/UserAccessLevel 1, Historizing/IsAbstract/Symmetric/ContainsNoLoops false, Executable/UserExecutable true, MinimumSamplingInterval -1 in this loader, ParentNodeId null), absent texts and locales are NULL. "
  "This holds for every combination of present and absent attributes, attribute order, node class, neighbouring nodes, and text length.",
  ["inputs"], "all node classes x all subsets/orders of attributes x attribute values incl. escapes, long values and all four identifier types, and pairs of neighbouring nodes",
  "The tests load a few fixed files and look at a handful of attributes of some nodes; no test varies presence, order, escapes or neighbours, and none of these tests runs without open62541.",
  [NS, NL], [("attribute extraction with defaults", NS+":getAttributeValue/extractAttributes"), ("text callbacks", NL+":OnCharacters/OnEndElementNs")],
  ["NodesetLoader_forEachNode"])
p("C02", "Every node element is delivered exactly once, in its class",
  "After a successful import and sort, iterating a node class calls the callback exactly once for every node element of that class with a distinct NodeId, in no other class, passing the caller's context through, and returns the number of calls made. "
  "Nothing else is delivered (no aliases, no referenced-but-undefined nodes), no node is delivered before sort, and this holds for any mix, nesting of unrelated elements and any number of nodes.",
  ["inputs"], "all documents up to 4 nodes over 8 classes and 4 identifier types with all reference shapes, plus every population size around the internal container sizes",
  "Existing tests check single nodes of chosen files; container growth boundaries, mixed classes and dangling targets are never enumerated.",
  [NS, SO, "src/nodes/NodeContainer.c", NL], [("per-class containers", NS+":Nodeset_addNode"), ("sort emits each node", SO+":Sort_start"), ("growth", "src/nodes/NodeContainer.c:NodeContainer_add")],
  ["NodesetLoader_forEachNode"])
p("C03", "Sorted delivery never puts a child before one of its parents",
  "Whenever sort succeeds, for every two delivered nodes A and B of one node class such that B is reachable from A over hierarchical references read parent-to-child (a forward reference from the parent, an inverse reference from the child, or a ParentNodeId on an instance node without hierarchical references), A is delivered before B. "
  "This holds for direct and for transitive relations, also through nodes of other classes or nodes not contained in the files, for every order of node elements and references in the document and every kind of NodeId.",
  ["inputs"], "all labelled directed graphs up to 4 nodes (5 in thorough), each edge stated forward, inverse or both, in every document order, over identifier types; longer chains and fans",
  "tests/sort.c checks graphs of at most three nodes with single edges; the ordering guarantee quantifies over all graphs and all document orders.",
  [SO, NS], [("topological sort over an AVL tree of NodeIds", SO+":Sort_addNode/Sort_start"), ("deferral of nodes with unknown references", NS+":Nodeset_sort")],
  ["Sort_start callback", "NodesetLoader_forEachNode"])
p("C04", "Sort fails if and only if the hierarchical references form a cycle",
  "For a document whose references are all classifiable, sort returns false and reports an error through the logger when the hierarchical references, read parent-to-child and ignoring references of a node to itself, contain a cycle, and returns true otherwise. "
  "Repeating one relation (several reference types, both directions, duplicates) is not a cycle, and a cycle through nodes that are not part of the documents still counts only if it is closed by stated references. Sort always terminates.",
  ["inputs"], "all labelled directed multigraphs up to 4 nodes (5 in thorough), each edge in any stated direction, every insertion order",
  "One test has one two-node cycle; the iff needs all graphs.",
  [SO], [("in-degree counting", SO+":record_relation/Sort_start")], ["NodesetLoader_sort return value", "logger"])
p("C05", "Namespace indexes are translated everywhere through the callback",
  "For every Uri of a file's NamespaceUris the addNamespace callback given for that import is called exactly once, in document order, with the caller's userContext and exactly that URI. "
  "Every namespace index k in NodeIds, ParentNodeIds, BrowseNames, reference types and targets, alias values, DataTypes and field DataTypes is then delivered as the callback's answer for the k-th Uri; index 0, and an index without an Uri, is delivered unchanged.",
  ["inputs", "configurations"], "all callback answer maps (identity, permutations, collapses, large indexes) x 0..3 URIs x every place where an index can occur x index 0..4 x identifier types",
  "Tests use two or three files with fixed answers; places and maps are not crossed.",
  [NS, "src/NamespaceList.c", NL], [("index mapping", "src/NamespaceList.c"), ("translation", NS+":translateNodeId/translateBrowseName/extractNodedId")],
  ["addNamespace callback", "NodesetLoader_forEachNode"])
p("C06", "Aliases resolve to the NodeId they name, wherever an alias may be used",
  "A reference type, a reference target, a DataType attribute and a field DataType written as an alias defined earlier in the file deliver exactly the NodeId (namespace-translated, any identifier type) that the alias names, exactly as if the NodeId had been written out, independent of how many aliases exist and how often each is used. "
  "A name that is neither alias nor NodeId delivers the null NodeId, and names are compared exactly.",
  ["inputs"], "all assignments of up to 4 aliases (names that are prefixes/case variants of each other, four identifier types) to every use site, plus every population size around 300 aliases",
  "Tests use the stock aliases of well-known files only.",
  ["src/AliasList.c", NS], [("alias lookup", "src/AliasList.c:AliasList_getNodeId"), ("use", NS+":alias2Id")], ["NodesetLoader_forEachNode"])
p("C07", "References are classified by the reference type hierarchy, in any document order",
  "After a successful sort every reference of a node is in its hierarchical list if its type is HierarchicalReferences or a (transitive, by the type's inverse HasSubtype reference) subtype of it, from namespace 0 or defined in any imported file (HasEncoding is also treated as hierarchical), the HasTypeDefinition reference of an Object or Variable is its type-definition reference, and every other reference is in the non-hierarchical list. "
  "The result does not depend on where in the documents the reference types are defined relative to their supertypes and uses, on how many reference types exist, or on what other loaders did. A reference service supplied by the caller is asked instead, sees every new reference type once, supertypes first, and its answers decide.",
  ["inputs", "histories"], "all forests of up to 4 custom reference types below hierarchical/non-hierarchical roots, in all document orders with the using nodes interleaved at every position; every namespace 0 reference type; population sizes around the internal table",
  "Two tests load one custom type each in supertypes-first order.",
  [IR, NS], [("internal classification table", IR), ("deferral of unknown types", NS+":Nodeset_newReference/lookupUnknownReferences/lookupReferenceTypes")],
  ["NL_Node.hierachicalRefs / nonHierachicalRefs / refToTypeDef", "NL_ReferenceService callbacks"])
p("C08", "Each Reference is delivered exactly once with its type, target and direction",
  "For every node, the multiset of references delivered over its hierarchical, non-hierarchical and type-definition lists equals the multiset of Reference elements of its element: same reference type, same target NodeId, same direction (IsForward defaults to true; xs:boolean true/1/false/0), nothing lost, nothing duplicated, nothing taken from another node. "
  "The only reference added is the one derived from ParentNodeId (C24).",
  ["inputs"], "all lists of up to 3 references over known-hierarchical, known-non-hierarchical, type-definition, later-defined and alias types, both directions, all node classes, duplicates and self references",
  "Tests look at one reference of one node.",
  [NS], [("list insertion and re-insertion", NS+":Nodeset_newReference/lookupUnknownReferences")], ["NodesetLoader_forEachNode"])
p("C09", "A NodeId defined twice is delivered once, intact, and reported",
  "When several node elements, in one or several files, have the same NodeId, exactly one node with that NodeId is delivered and its attributes, class and references are those of one of the elements unmixed; the other definitions are reported to the logger as errors; if no definition needs a reference type that is still undefined, the first one is kept. All other nodes are delivered as if the dropped elements were absent.",
  ["inputs", "histories"], "all placements of 2..3 definitions of one NodeId over classes, document positions, files and unknown reference types, with bystander nodes",
  "No test has a duplicate NodeId.",
  [NS, SO], [("duplicate detection", SO+":Sort_addNode"), ("drop", NS+":Nodeset_newNodeFinish")], ["NodesetLoader_forEachNode", "logger"])
p("C10", "Every API history is memory safe and delete releases everything",
  "For every sequence of new, import (of good, malformed, missing, empty, duplicate-containing, cyclic or unresolvable files), sort, iteration, reference queries and delete, calls neither crash nor touch freed memory, and after delete nothing allocated by the library or the XML parser on behalf of the loader remains allocated. "
  "This includes histories that skip sort or import, repeat sort, import after sort, or continue after a failure.",
  ["histories", "inputs"], "all call sequences up to length 4 (5 in thorough) over new/imports of 9 file kinds/sort/iterate/query/delete, and all small documents of the document alphabet with delete at every point",
  "Leak and misuse histories are not tested; valgrind runs only on the happy path upstream.",
  [NS, NL, "src/nodes/Node.c", SO, "src/AliasList.c", VA, PA], [("ownership and cleanup", NS+":Nodeset_cleanup, src/nodes/Node.c:Node_delete, "+SO+":Sort_cleanup")],
  ["allocator hooks", "AddressSanitizer"])
p("C11", "The character arena never overlaps, loses or moves live text wrongly",
  "For every sequence of malloc and realloc requests on an arena of any initial size, each malloc returns zero-filled memory of the requested size that overlaps no earlier live block and stays valid with unchanged content until the arena is deleted; realloc(n) extends the most recent block by n zero-filled bytes and keeps its content, wherever it has to be moved. "
  "A failed allocation returns NULL (from new, malloc, realloc alike) and leaves the arena usable, with all earlier blocks intact, and delete frees every region.",
  ["histories", "fault_sequences"], "all operation sequences up to depth 5 (7 thorough) over sizes around the capacity boundary for several initial sizes, with every single and double allocation failure",
  "tests/allocator.c has five fixed sequences and no failure; boundaries depend on the history.",
  [CA], [("regions", CA+":CharArenaAllocator_malloc/realloc")], ["CharArenaAllocator_*"])
p("C12", "Delivered text does not depend on how the XML parser splits it",
  "Texts (display name, description, inverse name, alias value, URI, reference target, value text, extension text) and attribute values are delivered as the complete concatenation of their character data, whatever mixture of plain text, character references, predefined entities, CDATA sections, comments and multi-byte characters they are written as, whatever their length, and wherever 1024-byte read boundaries fall in the file. "
  "Equivalent spellings of a document are delivered identically.",
  ["inputs"], "all sequences of up to 4 spelling segments at each text site; every alignment of a document against the read chunk size; lengths around arena and parser buffer limits",
  "Tests contain only plain short text.",
  [NL, PA, CA], [("accumulation", NL+":OnCharacters"), ("chunked push parsing", PA+":Parser_run")], ["NodesetLoader_forEachNode", "Parser_run callbacks"])
p("C13", "Import reports failure for every damaged, truncated or unreadable file",
  "importFile returns true only if the whole file was read and is a well-formed document: a missing, empty or unreadable file, a file cut off at any byte, a file with any well-formedness error, or a read error at any point makes it return false and report an error to the logger. "
  "The loader stays usable and deletable after the failure; a NULL file context or NULL addNamespace callback is refused the same way.",
  ["crash_points", "fault_sequences", "inputs"], "every prefix of several documents, every single-byte damage of a small document from an alphabet of 5 bytes, every read fault position, every file size around the chunk boundaries",
  "One test opens a missing file; truncation points and read faults are not enumerated.",
  [PA, NL], [("error propagation", PA+":Parser_run"), ("file handling", NL+":NodesetLoader_importFile")], ["NodesetLoader_importFile return value", "logger"])
p("C14", "Unknown elements and attributes never change what is delivered",
  "Adding elements the loader does not know (with any attributes, text and nested children, including children whose names are known elsewhere) between the known elements of a document, or unknown attributes and comments or processing instructions to it, changes neither the result of import and sort nor any delivered node. ",
  ["inputs"], "all insertions of one (two in thorough) unknown subtree from a family of shapes up to depth 3 at every element gap of a document that uses every known element",
  "Tests have one or two unknown elements at fixed places.",
  [NL], [("unknown state with depth counter", NL+":enterUnknownState/OnEndElementNs")], ["NodesetLoader_forEachNode"])
p("C15", "The value of a variable is delivered as the tree written in the file",
  "For a Variable with a Value element the delivered value tree mirrors the XML: scalar, ListOf array, ExtensionObject and ListOf ExtensionObject are flagged as such, with the type name (or TypeId identifier) and, below it, members in document order with their names, nesting and text; whitespace-only text is delivered as no text, empty lists have zero members. "
  "A Variable without Value has no value, and values never leak into neighbouring nodes.",
  ["inputs"], "all value trees up to depth 3 and 3 members per level over the four value forms, with repeated and colliding member names, empty and whitespace text",
  "tests/ValueTest.c covers about ten hand-written event sequences.",
  [VA, NL], [("value state machine", VA+":Value_start/Value_end"), ("driver", NL+":PARSER_STATE_VALUE")], ["NL_VariableNode.value", "Value_start/Value_end"])
p("C16", "DataType definitions deliver all fields in order with their properties",
  "For a DataType with a Definition, the delivered definition has one entry per Field element in document order with its Name, DataType (alias resolved, default i=24), ValueRank (default -1), IsOptional and, for fields with a Value attribute, the enum value, and is flagged enum, union or option set as the document says; fields of option sets are not delivered. "
  "A DataType without Definition has none, and definitions never affect other nodes.",
  ["inputs"], "all definitions up to 3 fields over all attribute combinations and flags, with neighbours, and field counts around growth",
  "Only compiled comparison with generated types upstream for a few types.",
  [NS, "src/nodes/DataTypeNode.c"], [("field extraction", NS+":Nodeset_addDataTypeDefinition/addDataTypeField")], ["NL_DataTypeNode.definition"])
p("C17", "Extension callbacks are bracketed and see the extension's content in order",
  "For every Extension element of a node the caller's callbacks see exactly one newExtension, then start/end calls properly nested in document order with element names, attributes and text as written, then one finish, all with the data newExtension returned, and the node delivers the data of its last Extension. "
  "Without an extension interface extensions are skipped and nothing else changes; extensions outside nodes are never reported.",
  ["inputs", "configurations"], "all extension contents up to depth 3 and 3 elements (including elements named like known elements) x 0..2 extensions x nodes with and without",
  "One test checks one extension.",
  [NL], [("extension states", NL+":PARSER_STATE_EXTENSION")], ["NodesetLoader_ExtensionInterface callbacks", "NL_Node.extension"])
p("C18", "HasEncoding relations of binary encodings are all reported",
  "getBidirectionalRefs lists exactly one entry for each inverse HasEncoding reference of a node named 'Default Binary': source is the referenced data type, target the encoding node, type HasEncoding, with translated namespaces, independent of aliases, reference order and the sort result; no other reference produces an entry. Before any import the list is empty.",
  ["inputs"], "all documents up to 3 nodes over browse names, directions, reference types spelled as id or alias, identifier types",
  "Only used indirectly by upstream backend tests.",
  [NS], [("recording", NS+":Nodeset_newReferenceFinish")], ["NodesetLoader_getBidirectionalRefs"])
p("C19", "Loaders do not influence each other, however their calls interleave",
  "Two or more loaders in one process, their API calls interleaved in any order (including creating and deleting one while the other is between calls), each deliver exactly what they deliver when run alone. Logger, reference service and addNamespace callback of one loader are never called on behalf of another.",
  ["schedules", "histories"], "all interleavings of the call sequences of 2 loaders (3 in thorough) over files with conflicting reference types, aliases, namespaces and NodeIds",
  "No test has two loaders alive.",
  [IR, NL, NS], [("per-loader state", NL+":NodesetLoader_new")], ["all public API"], [("hierarchical reference table", "known hierarchical reference types", IR)])
p("C20", "Any well-formed XML document is handled without crash, hang or leak",
  "Importing and sorting any well-formed XML document, whatever known or unknown elements it nests in whatever order and whatever known attributes are missing, duplicated in meaning or have odd values, ends with a defined boolean result, without memory errors and without unbounded looping; afterwards iteration and delete work.",
  ["inputs"], "all element trees up to 4 elements (5 thorough) over the full element vocabulary plus unknown, with minimal/odd attributes and text",
  "Tests only use schema-valid files.",
  [NL, NS, VA, "src/AliasList.c"], [("SAX state machine", NL+":OnStartElementNs/OnEndElementNs")], ["AddressSanitizer", "NodesetLoader_*"])
p("C21", "Log messages reach the configured logger completely formatted",
  "Every message is delivered to the logger given to NodesetLoader_new (with its context and a level), or, when none was given, to the built-in logger, which prints 'NODESETLOADER: <Level> : ' and the message with all its format arguments expanded; the two are never mixed. "
  "An operation that returns false has reported at least one error-level message.",
  ["inputs", "configurations"], "all failure causes x logger configurations, all levels and argument kinds for the built-in logger",
  "The built-in logger's output is not tested.",
  ["src/PrintfLogger.c", NL, NS, SO], [("built-in logger", "src/PrintfLogger.c:logStdOut")], ["NodesetLoader_Logger.log", "stdout"])
p("C22", "Importing several files into one loader delivers their union",
  "Importing files one after another into one loader and sorting once delivers the union of their nodes, each file's namespace indexes and aliases being interpreted by that file's own NamespaceUris and Aliases and its own addNamespace callback and userContext. "
  "References, parent relations and reference types across files work as within one file, in any import order, and the delivered nodes are the same as if each file's content had been in one document.",
  ["histories", "inputs"], "all splits of small node graphs over 2..3 files, all import orders, conflicting namespace tables and aliases",
  "Upstream multi-file tests create a new loader per file.",
  [NL, NS, "src/NamespaceList.c", "src/AliasList.c"], [("per-file context", NL+":NodesetLoader_importFile")], ["NodesetLoader_forEachNode", "addNamespace callback"])
p("C23", "Undefined reference types make sort fail cleanly, defined ones never do",
  "sort returns false and reports the affected node when, and only when (cycles aside), some node uses a reference type outside namespace 0 that no imported file defines (and the caller's reference service does not know); it always terminates, however many nodes and reference types are involved and whichever of them depend on one another. "
  "Importing the missing definition afterwards and sorting again succeeds with the same result as if it had been there from the start; sorting twice delivers the same nodes.",
  ["inputs", "histories"], "all usage relations among up to 3 custom reference types (defined or not, using one another) and 2 instance nodes, in all orders; all import/sort histories that complete them",
  "No test has an undefined reference type.",
  [NS], [("unknown reference resolution", NS+":Nodeset_sort/lookupReferenceTypes")], ["NodesetLoader_sort", "logger"])
p("C24", "A ParentNodeId without hierarchical reference yields the parent reference",
  "An Object, Variable, Method or View with a ParentNodeId and no hierarchical reference of its own is delivered with exactly one additional hierarchical reference to that parent: inverse, of the type of the reference with which the parent (if it is imported) refers to the node, otherwise HasComponent. "
  "Nodes that state a hierarchical reference themselves, nodes without ParentNodeId and type nodes get none, independent of document order.",
  ["inputs"], "all documents of parent and 1..2 children over classes, presence of ParentNodeId, own references, forward references of the parent, unknown types, in all orders",
  "No test of the core covers it.",
  [SO, NS], [("synthesis", SO+":Sort_addNode")], ["NL_Node.hierachicalRefs"])

p("B01", "loadFile creates every node in the server with the attributes of the file",
  "After NodesetLoader_loadFile returns true, the server contains for every node element (whose parent and type exist) one node with the NodeId, node class, browse name, display name, description, inverse name, type definition and class-specific attributes given in the file (IsAbstract, Symmetric, ContainsNoLoops, EventNotifier, Executable, UserExecutable, DataType, ValueRank, ArrayDimensions, AccessLevel, UserAccessLevel, Historizing, MinimumSamplingInterval), and no other new node; its node context is the extension data.",
  ["inputs"], "all node classes x attribute presence and values incl. array dimension lists, extremes and absent texts",
  "Upstream backend tests check selected attributes; here they cannot even be built without open62541.",
  [B+"import.c", B+"conversion.h"], [("attribute mapping", B+"import.c:handle*Node/addNodeImpl")], ["UA_Server_* calls / resulting address space"])
p("B02", "All references of a file exist in the server after loading",
  "After loadFile returns true, for every Reference element of a node both of whose ends exist in the server, the server has that reference with that type, source, target and direction (navigable from both ends), and the load adds no reference that the file does not state (apart from parent, type definition and the file's encoding relations). References to nodes created later in the same load are not lost.",
  ["inputs"], "all reference lists up to 3 over types, directions, forward/backward in document order, node classes, targets in server / in file",
  "references.c checks six references.",
  [B+"import.c"], [("reference pass", B+"import.c:addNonHierachicalRefs")], ["server address space"])
p("B03", "Namespaces of the file are mapped to the server's namespaces, in values too",
  "loadFile registers each NamespaceUri of the file with the server once and delivers every namespace-qualified item of the file (NodeIds, browse names, references, and NodeId and QualifiedName values inside variable values at any depth) with the server's index of that URI, whatever indexes the server assigns and in whatever order files were loaded.",
  ["inputs", "histories"], "all server namespace layouts (pre-registered subsets/orders) x 0..3 URIs x places incl. values in scalars, arrays and structures",
  "multipleNamespaces.c uses one layout.",
  [B+"ServerContext.c", B+"import.c", B+"Value.c"], [("mapping table", B+"ServerContext.c")], ["server address space"])
p("B04", "Scalar and array values of built-in types are stored as written",
  "For a Variable of a built-in type (or subtype of one) the value in the server after loading is the value the Value element denotes: Boolean, all integers over their full range, Float, Double, String, DateTime, Guid, ByteString, NodeId, QualifiedName, LocalizedText, StatusCode and enumerations, as scalar and as array of any length, with the right type, array length and element order; a Variable without Value, or with an empty one, has no value. Missing or empty parts of a value never crash the import.",
  ["inputs"], "every built-in type x boundary values x scalar / array of 0..3 x missing or empty parts",
  "primitiveValues.c and namespaceZeroValues.c check one value per type.",
  [B+"Value.c", B+"conversion.h", B+"import.c"], [("conversion", B+"Value.c:setScalar")], ["variable value in the server"])
p("B05", "Structured values are stored member by member as written",
  "For a Variable whose DataType is a structure, union or structure with optional fields from namespace 0 or from an imported file, the stored value has each member named in the file set to its value, wherever the members appear and at any nesting depth, arrays of any length included, and every member not present in the file zero/empty; memory layout is the one described by the registered data type.",
  ["inputs"], "all structure types up to 3 members over a member alphabet (scalar, string, array, nested structure, optional, union) x all subsets/orders of present members",
  "structwitharray.c and customTypesWithValues.c check a few complete values.",
  [B+"Value.c"], [("structure conversion", B+"Value.c:setStructure/setUnion")], ["variable value in the server"])
p("B06", "Imported data types have the memory layout a C compiler gives them",
  "For every structure or union DataType of an imported file the server's registered custom type has the members of its supertype followed by its own fields, with the right member types, array and optional flags, and a size, member padding, pointer-freeness and kind equal to those of the corresponding C struct in open62541's conventions, whatever the order of the definitions in the file. Enumerations, option sets and subtypes of simple types get the size and kind of their base; lookups by NodeId return the type.",
  ["inputs"], "all structures of up to 4 members over 10 member kinds (1..3 bytes alignments, arrays, optionals, nested, unions), all definition orders, two-level inheritance; layouts computed by independent ABI rules and by the real compiler",
  "dataTypeImport tests compare a few types with generated ones.",
  [B+"DataTypeImporter.c", B+"padding.h"], [("layout computation", B+"DataTypeImporter.c:setPaddingMemsize")], ["UA_ServerConfig.customDataTypes", "NodesetLoader_getCustomDataType"])
p("B07", "A load that fails says so and leaves the address space untouched",
  "loadFile returns false, reports an error through the server's logger and adds no node, reference or data type to the server when the file is missing, malformed, truncated at any byte, contains a hierarchical cycle or uses an undefined reference type, or when server or path is NULL. Otherwise it returns true, and a failed load never prevents a later load of a good file.",
  ["crash_points", "inputs", "histories"], "every truncation point of a nodeset, all failure causes, followed by a good load",
  "cornerCases.c loads one odd file.",
  [B+"import.c"], [("status handling", B+"import.c:NodesetLoader_loadFile")], ["return value", "server address space", "server log"])
p("B08", "Nodes whose parent comes later in the class order are still added",
  "Every node that the server accepts once its prerequisites (parent, type) exist is in the server after loadFile, even if the server refused it in the first pass because a prerequisite of a later node class was not there yet, for dependency chains alternating between classes up to the documented number of attempts; no node is added twice, and refused nodes do not prevent others from being added.",
  ["fault_sequences", "inputs"], "all parent chains over instance classes up to length 5 in all document orders; every subset of add-node calls refused transiently (bounded)",
  "One upstream case (HasHistoricalConfiguration).",
  [B+"import.c"], [("second chance", B+"import.c:secondChanceAddNodes/addNodes")], ["server address space"])
p("B09", "Loading is memory safe and leaves no memory behind",
  "For every sequence of loadFile calls with good and bad files, followed by deleting the server (and cleaning up custom data types), no memory is leaked, freed twice or used after free, for values of all supported types, string NodeIds, encodings and extensions included.",
  ["histories", "inputs"], "all load sequences up to length 3 over 11 kinds of good and bad files, two servers in every interleaving, every type x place x content of values, every truncation, every single (small file: pairs of) element change of a rich file",
  "Upstream runs valgrind over fixed files.",
  [B+"import.c", B+"Value.c", B+"customDataType.c", B+"RefServiceImpl.c"], [("cleanup", B+"customDataType.c:cleanupCustomTypes, "+B+"import.c")], ["allocator hooks", "AddressSanitizer"])
p("B10", "ByteString values decode to the bytes their base64 text encodes",
  "The stored ByteString is the RFC 4648 decoding of the text, white space ignored, for every content and length and with any line breaking; text that is not base64 yields an empty ByteString and never invalid memory.",
  ["inputs"], "all byte strings up to 2 bytes, all lengths to 12 over a byte alphabet, all white-space insertions, all short texts over an alphabet of valid and invalid characters",
  "No base64 test.",
  [B+"nodeset_base64.h", B+"Value.c"], [("decoder", B+"nodeset_base64.h:unbase64")], ["variable value in the server"])
p("B11", "References are classified by the server's own reference type tree",
  "While loading into a server, a reference counts as hierarchical exactly if its type is a subtype of HierarchicalReferences in the server or through types the file defines, at any depth and in any definition order, including types that earlier loads added; hence parents, order and parent reference types of the nodes created are right for custom hierarchical types.",
  ["inputs", "histories"], "all chains/forests of up to 3 custom types split over preloaded server, earlier file and this file, all orders, used by instance nodes",
  "newHierachicalRef.c has one chain.",
  [B+"RefServiceImpl.c", B+"import.c"], [("type tree browse and update", B+"RefServiceImpl.c")], ["server address space"])
p("B12", "Loading files one after another accumulates nodes and data types correctly",
  "Loading several files into one server in dependency order gives the same address space and the same registered data types as their contents require: data types of earlier files remain registered and valid, are found by NodeId, and can be used as supertypes, members and value types by later files; loading a file again adds nothing twice to the address space.",
  ["histories", "inputs"], "all histories of up to 4 loads over 10 kinds of interdependent and failing files; all uses of 11 kinds of types by types of one and two later files; data types the caller registered himself; boundary numbers of types and files",
  "structMultipleNamespaces.c has one pair.",
  [B+"DataTypeImporter.c", B+"customDataType.c", B+"import.c"], [("accumulating custom type array", B+"DataTypeImporter.c:DataTypeImporter_new")], ["UA_ServerConfig.customDataTypes", "server address space"])

p("C25", "Distinct loaders can be used in distinct threads at the same time",
  "When every loader is used by one thread only, the calls of several threads may run concurrently in any interleaving: each loader delivers, logs and returns exactly what it does when its calls run alone, no memory is accessed that was freed, and no call needs a lock around it.",
  ["schedules"], "two complete histories (new, two imports, sort, iterations, delete) over 7 contradicting file sets: one switch at any basic block, two at any function entry, three at any access to static storage",
  "No threaded test, and a race shows in a test by luck only.",
  [PA, IR, NS, NL], [("no shared mutable state", "src/*"), ("per-parser context of libxml2", PA+":Parser_run")])
p("B13", "Loads into different servers can run in different threads at the same time",
  "When two threads load files into servers of their own at the same time, in any interleaving, each load returns the same, each server ends up with the same nodes, references, values, namespaces and data types, and no freed memory is accessed, exactly as when the loads run one after the other.",
  ["schedules"], "two histories of loads over 6 contradicting file sets (structures, enumerations, all kinds of values, reference types, waiting nodes, failing files): one switch at any basic block, two at any function entry, three at any access to static storage",
  "No threaded test, one server per test.",
  [B+"Value.c", B+"import.c", B+"DataTypeImporter.c", B+"RefServiceImpl.c", PA], [("no shared mutable state", B)], ["server address space"])
p("N02", "Running out of memory is reported, never a crash",
  "When an allocation fails anywhere during import, sort or load, the operation returns false, nothing is corrupted, and the loader can be deleted.",
  ["fault_sequences"], "every single allocation failure during import and sort",
  "No fault injection in the tests.",
  [NS, NL, SO, VA], [("NULL checks", "all allocation sites")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
