INTRO = r'''
# Model checking open62541-nodeset-loader

(Generated by `tools/gen_design.py` from `tools/design_text.py`, `properties.jsonl`, `known_findings.txt`, `seeded/`.)

## Method

All claimed properties are decided by *stateless model checking of the implementation*: the deciding step is the
exhaustive enumeration of all executions of a closed, bounded driver around the real code.

- **Engine (`mc/mc.hpp`, `mc/mc.cpp`).** A check is a set of scenarios. A scenario is a deterministic body that takes
  every nondeterministic decision with `choose(n)`. The engine re-executes the body for *every* sequence of choices
  (depth-first over the choice tree, prefixes distributed over forked worker processes, no sampling, no random
  numbers). Choices are: the shape of documents (elements, attributes, references, values, their order and
  spelling), the sequence of API calls, the interleaving of the calls of several loaders, where a file is cut or
  damaged, which `read` fails or is short, which allocation of the arena fails, the answers of callbacks
  (namespace indexes, order of browse results), and which server state exists beforehand. There is no thread in
  the code under test, so the schedule space is the space of call interleavings.
- **Real code, not a model of it.** Every check compiles the `src/**/*.c` (and, for B*, `backends/open62541/src/**/*.c`)
  of /repo's working tree into a temporary directory, with AddressSanitizer and counted allocations, and links the
  driver to it. Nothing in /repo is instrumented; there are no hooks. Statics and private functions are not touched:
  the checks use the public API, plus the arena's header for C11.
- **Oracle (`mc/model.*`, `mc/core.*`, `mc/back.*`, `mc/mtypes.*`).** An independent reference model in C++ is
  evaluated on the abstract document (not on its XML) and predicts everything the API must deliver: attribute
  dumps, references with classes, order constraints (as a partial order: any linear extension is accepted), sort
  results, encodings, logged classes of messages, and for the backend the whole address space and type table.
  Every execution is compared with it; a crash, an AddressSanitizer report, a hang (time limit per execution), a
  leak (live blocks allocated by the library after deletion) is a violation as well. The model only uses what the
  properties state, so changes of internal structure, log wording or order of equivalent nodes do not alarm.
- **The repository's own documents (`mc/real.*`).** The scenarios `repository-documents` (C03, C12, C13, C14, C22, B12)
  read the nodesets below /repo with libxml2's tree interface, a second reader independent of the SAX handlers under
  test, into the abstract documents of the model, so that the oracle also judges what users really load (namespace 0 itself,
  DI, PLCopen, ...), alone, split, with unknown content inserted, and cut at every element border.
- **Verdicts.** A violation is re-executed in a fresh process before it is reported (`unconfirmed` counts those
  which did not repeat; none on the current tree; `nondet` counts bodies whose choice tree differs between runs).
  The replay file contains the choice sequence; `tools/check ID --replay FILE` prints the document and
  the comparison. Exit 1 and `VIOLATION property=ID replay=...` only for a violation not listed in
  `known_findings.txt` under its key.
- **Evidence.** `evidence/ID.json`: executions, transitions (edges of the choice tree), states (distinct
  observations of the code), comparisons made between code and model, whether the tree was exhausted
  (`exhaustive`), samples of explored documents. There are no model traces to bind to the code: every trace is
  an execution of the code.
- **Bounds.** quick explores small-scope shapes completely (3 or 4 nodes, pairs/triples of features) and
  sizes around every constant of the code (containers of 10/100/1000/10000, arena of 1 MiB, 300 aliases, 1024-byte
  chunks of the parser, 10 attempts, 100 browse results). thorough raises depth and alphabets. On this machine quick takes
  5-90 s per property, thorough up to 780 s (cap; the evidence then says `exhaustive: false`).

### The stand-in for open62541 (`shim/`)

open62541 is not installed. `shim/include/open62541` and `shim/src/types.c` provide its type API with the memory
layout of the real one (NodeIds, strings, variants, type table with sizes and members of the namespace 0 types used),
`shim/src/server.cpp` a server: nodes with attributes, contexts, bidirectional references, parent and type checks like
those of `UA_Server_addNode_begin` (parent exists, reference type hierarchical, HasSubtype for types, type
definition of the right class; objects and variables without parent accepted), browsing with continuation points and in either order,
a namespace table. Its behaviour was taken from open62541's sources as known to the author; what that means: a
B-property holds *for servers that behave like the stand-in*. Not modelled: the limit of 128 reference types
per server of newer open62541 versions, instantiation of mandatory children (the backend uses addNode_begin, which
does not instantiate), type checks of values against the variable's DataType, node-class-specific callbacks. The build variant
without USE_CLEANUP_CUSTOM_DATATYPES is not covered (there the server's own cleanup releases the types).

### What is deliberately not judged

Decisions about inputs whose meaning neither the OPC UA specification nor the code settles; the checks accept any
outcome that is memory safe:
`writeMask`; unknown elements outside of known elements; delivered content after a failed import or sort; two `Value`
elements (the last wins in the model) ; texts of white space only; text in front of child elements in extensions;
duplicate definitions whose first copy is deferred by the sorter (C09 weak); supertypes that arrive after a
successful sort (C23); namespaces the file does not declare (B03); ArrayDimensions that are absent although ValueRank
is 1 or a value is there; base64 with unused bits set; DateTime before 1601; unions whose switch names a missing
member; values of XmlElement, ExpandedNodeId, ExtensionObject, DataValue, Variant and DiagnosticInfo; structures that
contain themselves by value, inherit to or from unions, or exceed 255 members or 64 KiB; several candidates for
Default Binary; already existing nodes whose type definition differs on a reload; a NULL logger.
'''
P = {
'C01': '''Specified: per node class the set of delivered strings (or their defaults), NodeId, browse name, texts. Enumerated: every subset of attributes, every attribute value of an alphabet with odd spellings, orders, all pairs of neighbouring nodes (stale state), all lengths up to and around the arena boundaries, characters. Oracle: `model::Oracle` attribute dump. Tests sample a few nodes; defaults, stale values of the preceding node and boundary lengths only show in combinations.''',
'C02': '''Specified: multiset of delivered nodes per class equals the elements of the file. Enumerated: all sequences of up to 5 node elements over the 8 classes, all identifier kinds, counts around the container sizes, nodes waiting for unresolved types. Oracle: the model's list.''',
'C03': '''Specified: if sort succeeds, for every stated hierarchical relation (forward, inverse, by ParentNodeId, also through nodes of other classes) between delivered nodes of one class, the parent comes first. Enumerated: all acyclic graphs of 3, 4, 5 nodes with all statement kinds and document orders, insertion orders for the AVL tree. Oracle: reachability over the edges; any linear extension accepted.''',
'C04': '''Specified: sort returns false exactly for cycles. Enumerated: *all* directed graphs over 3 and 4 nodes with statement kinds, undefined intermediate nodes, types, identifiers, several files; rings up to large sizes. Oracle: DFS.''',
'C05': '''Specified: every index of the file is replaced by the callback's answer for its Uri, at every place an index can occur. Enumerated: every place x index x answer table (identity, swap, gaps, large numbers), index lists up to 1000.''',
'C06': '''Specified: an alias yields the NodeId of its definition wherever it may be used. Enumerated: use positions x identifier kinds x alias name relations (prefixes, equal lengths, looking like NodeIds), first/second/last of up to 1000 aliases, several files.''',
'C07': '''Specified: a reference is hierarchical iff its type descends from HierarchicalReferences through namespace 0 or the files, whatever the order. Enumerated: all forests of up to 3 custom types, all document orders, several supertypes, usage before definition, other loaders, the caller's own reference service.''',
'C08': '''Specified: multiset of references per node with type, target, direction, class of list. Enumerated: all lists of up to 3 references over types, targets, direction spellings; neighbours; many.''',
'C09': '''Specified: one delivery per NodeId, unmixed, and an error or warning logged. Enumerated: placements of up to 3 definitions in up to 3 files among bystanders, all class pairs, after a sort.''',
'C10': '''Specified: no memory error and no live block after delete for any call history. Enumerated: all sequences of up to 4 (5) calls over 15 operations (good, bad, cyclic, duplicate files, sorts, iterations, nested), and each truncation of a rich file. Monitor: ASan and block accounting.''',
'C11': '''Specified: the arena's blocks never overlap, keep content, satisfy alignment 1 and sizes, reallocation keeps text, failed allocations are reported and harmless. Enumerated: all request histories of depth 4 (5) with sizes around the capacity and all placements of up to 2 failing mallocs. Oracle: shadow map of live ranges with byte patterns.''',
'C12': '''Specified: text = concatenation of the character data, independent of chunking (entities, CDATA, comments, character references, chunk borders of libxml2 and of the file reader). Enumerated: all sequences of up to 3 (4) segments at 15 sites, all alignments to the 1024-byte chunks.''',
'C13': '''Specified: import returns true iff the bytes are a complete well-formed readable document. Enumerated: every truncation, every single-byte damage from a set, structural damages, read errors at each offset (interposed read/fread), short reads, directories, unreadable paths. Oracle: libxml2's tree parser on the same bytes.''',
'C14': '''Specified: dump(document + unknown content) = dump(document). Enumerated: one unknown subtree (27 names x 23 contents) at every gap, all pairs of gaps, attributes resembling known ones, comments, PIs, white space.''',
'C15': '''Specified: NL_Value tree equals the written one (names, order, nesting, scalar/list/extension object flags). Enumerated: all trees with up to 4 (5) elements over 6 name alphabets in the 4 forms, neighbouring variables, sizes.''',
'C16': '''Specified: fields in order with name, type, rank, value, optional; union/option set/enum flags. Enumerated: every combination of one field's attribute values, several fields, counts, neighbouring types.''',
'C17': '''Specified: the sequence newExtension, start*, end*, finish per Extension is bracketed and shows names, attributes, text; the data reaches the node. Enumerated: all contents with up to 4 (5) elements, classes x number of extensions x interface, several files.''',
'C18': '''Specified: the multiset of reported encodings (source, target, type). Enumerated: class, browse name, direction, spelling, target; pairs (triples) of nodes; orders and file splits.''',
'C19': '''(Also: the calls of one loader made inside of the addNamespace, reference service and iteration callbacks of another one, files in three encodings.) Specified: the observation of each loader equals that of the loader alone. Enumerated: all C(12,6)=924 interleavings of the six calls of two loaders for all pairs of 7 contradicting file sets and services; three loaders. This is the schedule exploration of the code base at the granularity at which it can be scheduled.''',
'C20': '''Specified: any well-formed document: no crash, hang, leak; result boolean. Enumerated: all element forests of 2 (3) elements of the entire vocabulary in 27 parser contexts, value trees, odd attribute values, encodings and entity declarations. Monitor: ASan, block accounting, time limit.''',
'C21': '''Specified: the caller's logger gets format and arguments that vprintf accepts, the built-in logger prints exactly that. Enumerated: formats x levels x lengths, all call histories of length 4 (5), both loggers compared.''',
'C22': '''Specified: the delivery for files F1..Fn equals that of their union, per-file aliases and namespaces. Enumerated: all assignments of the nodes of 9 graphs to 2 and 3 files with own tables; pairs (triples) with missing tables.''',
'C23': '''Specified: sort with an undefined (or never rooted) reference type returns false, logs, terminates, and defined ones never do. Enumerated: all relations of 2 (3) types, each missing or in file 1 or 2, sort after each import once or twice; rings, chains, fans.''',
'C24': '''Specified: a ParentNodeId without matching reference produces one inverse reference to the parent, none otherwise, in any order. Enumerated: all pairs of parent and child over classes, ParentNodeIds, references on either side; families; custom types; sizes.''',
'C25': '''Specified: what each of two histories delivers, returns and logs equals what it does alone; no access to freed or unallocated memory. Enumerated: the code under test is compiled with `-fsanitize=thread -fsanitize-coverage=trace-pc`, and the instrumentation calls are answered by mc/threads.cpp, a scheduler that runs exactly one of the threads and switches at chosen points (no ThreadSanitizer runtime is involved, so a verdict does not depend on timing). (1) history A is left at *every* basic block for a complete history B; (2) the same with a B that has already made 1..5 of its calls; (3) A is left at every function entry, B at every function entry, back to A, then B; (4) accesses to static storage: everything else of two loaders commutes because it touches only memory of its own loader, so all schedules with up to three switches at these accesses stand for all schedules (partial-order reduction); on the unchanged tree there is no written static storage and one schedule per pair remains. Static storage is collected in a section of its own and set back before every execution, so one-time initialisations are explored too. Not reached: switches inside of libxml2 and libc; weak memory.''',
'B01': '''Specified: address space after loadFile (node by node: class, names, texts, attributes, type definition, context) = model; nothing else new. Enumerated: every class with every attribute value against presence of the others, text and name alphabets, mixes, counts, dimensions, lengths.''',
'B02': '''Specified: the set of (source, type, target) in the server, seen from both ends, equals what the file states plus parents, type definitions and encodings. Enumerated: lists of references over all types/directions/targets, all class pairs, parents by ParentNodeId and/or reference, two files, encodings.''',
'B03': '''Specified: every namespace-qualified item is translated with the server's table. Enumerated: server tables, file tables (orders, repeats, namespace 0), three files, items at every place including values in nested structures.''',
'B04': '''Specified: the variant equals the lexical value (type, length, order). Enumerated: all 16-bit integers and boundary sets of the wider ones, real, date, guid, NodeId alphabets, strings, missing parts, array lengths, subtypes. Oracle: own parser of the XML Schema lexical forms.''',
'B05': '''Specified: decoding the stored memory with the *registered* type description gives the written members, the rest zero. Enumerated: every member type x array x optional, pairs/triples of members, presence and order in the file, nesting, unions, inheritance, namespace 0 structures, lists.''',
'B06': '''Specified: size, padding, kind, pointer-freeness, members, encoding id. Enumerated: every member type, all structures of up to 3 (4) members, nesting, inheritance, containment in all definition orders, odd definitions. Oracle: an independent C layout computation (`mtypes`).''',
'B07': '''Specified: false + error logged + unchanged address space and types, or true. Enumerated: every truncation and damage byte of a file with all classes, undefined types between all pairs, cycles, all histories of 3 (4) loads. Checked again: a good file still loads after it.''',
'B08': '''Specified: least fixpoint of what the server accepts is present. Enumerated: all chains of up to 5 (6) and forests of 4 (5) nodes over all instance classes, periodic chains needing up to 9 attempts, refused nodes among them. Oracle: fixpoint iteration bounded by the attempts.''',
'B09': '''Specified: no memory error; no block of the library live after deleting server and types. Enumerated: values of all types incl. malformed ones, all sequences of loads from a pool, two servers, truncations, pairs of features. Monitor: ASan and block accounting.''',
'B10': '''Specified: RFC 4648. Enumerated: all contents of up to 2 bytes and alphabets beyond, all texts of up to 4 (5) characters over a reduced alphabet, every single character, line breaks at every place, lengths around powers of two.''',
'B11': '''Specified: acceptance, order and parent references agree with the classification by the server's tree. Enumerated: all trees of 3 (4) types below 4 (6) standard ones, each from the server, an earlier file or the same file; up to 250 subtypes; both browse orders.''',
'B12': '''Specified: after each load address space and type table equal the model's accumulation. Enumerated: three files with types used as supertypes, members and value types across files, preset types of the caller, histories with failed and repeated loads, many files.''',
'B13': '''Specified: results, errors, address space, values, namespaces and number of data types of each server after each load equal those of the loads alone. Enumerated: as C25, with the backend instrumented too and 6 file sets that use the same NodeIds for different things; the server itself is never left in the middle.''',
}
NA = '''
## Not claimed

- **N02** (out of memory): allocation results are unchecked nearly everywhere and the parser callbacks have no error
  channel; a repair would be a redesign. The arena, whose interface reports failures, is checked with enumerated faults (C11).
'''
TAIL = '''
## False alarms met and corrected

- C09 demanded the first definition of a NodeId to win even if it was deferred by the sorter: weakened to "one of them, unmixed".
- C13 demanded failure for strings with NUL characters and for namespace-ill-formed documents: libxml2 accepts these, unjudged.
- C14 inserted unknown elements at places where they change the meaning by design (inside leaf texts, values): restricted to gaps.
- C15/C12 distinguished an empty text from an absent one: the API does not.
- C23 demanded failure of a second sort for supertypes arriving after a successful sort: not judged.
- B02/B01 required nodes with an invalid parent or type to be refused: either outcome accepted, the property only speaks of nodes whose parent and type exist.
- B08 counted chains whose links lie in class order as attempts: only links against the class order need one.
- B06 expected HasEncoding targets with any browse name as Default Binary: see the statement of unjudged cases.
- B09 counted blocks that the stand-in server owns: excluded from the accounting.

## Robustness against refactorings

The checks use the public API (and the arena's functions by their header). Behaviour-preserving edits tried (see
`tools/refactorings/` if present): extracted helpers, loops rewritten, reordered statements, containers growing by other factors,
other initial capacities, other order of equivalent nodes. None alarms.
'''
