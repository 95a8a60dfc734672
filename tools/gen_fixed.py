import subprocess
log=subprocess.run('git -C /repo log --format="%h %s" --reverse',shell=True,text=True,capture_output=True).stdout.splitlines()
m={
'an import destroyed the XML':('C19','an import inside of a callback of another import freed the character encoding handlers the outer one was using (xmlCleanupParser)'),
'report truncated':('C13','files cut off in the middle, read errors and errors reported late were imported with result true; the parser context leaked on errors'),
'deliver ampersands':('C12','&amp; in attribute values was delivered as &#38;'),
'CharArenaAllocator_new returns':('C11','CharArenaAllocator_new returned an arena without a region when the first region could not be allocated'),
'keep browse names':('C01','browse names with a colon not following a namespace index lost the text before the colon'),
'aliases: any':('C06','more than 300 aliases overflowed the list; aliases shared the NodeId with the nodes (double free / leak); an alias without name crashed'),
'release everything a node':('C10','NodeIds of nodes, references, data types and definition fields leaked; definition fields were uninitialised'),
'free values that are replaced':('C10','values of non-variables, replaced values and nodes the parser did not finish leaked'),
'reference types are kept per':('C19','hierarchical reference types were kept in a process-wide array of 50 entries, shared by all loaders'),
'nodes are owned':('C10','nodes leaked when the nodeset was not sorted or the sort failed'),
'sorting can be repeated':('C22','a second sort, or importing after a sort, delivered nothing / crashed'),
'ParentNodeId: same':('C24','the reference generated for ParentNodeId depended on the document order and was ignored when sorting'),
'classify references':('C07','references were classified wrongly when their type is defined later; sort looped endlessly on undefined reference types'),
'every file has its own':('C22','the second file of a loader used the namespace indexes, aliases and addNamespace callback of the first one'),
'a loader can be used':('C10','sort, forEachNode and delete crashed for a loader without an imported file'),
'the internal logger':('C21','the built-in logger did not print the arguments of messages'),
'no crash on a Definition':('C20','a Definition outside of a data type and an encoding reference of a node without BrowseName crashed'),
'elements named Extension':('C17','an element named Extension inside of an extension ended it'),
'booleans may be':('C08','IsForward="1" (and IsUnion, IsOptionSet, IsOptional) counted as false'),
'do not lose':('C08','a second HasTypeDefinition reference replaced the first one, which leaked'),
'only the supertype decides whether a':('C07','any inverse reference to a hierarchical type made a reference type hierarchical'),
'arena requests of':('C11','requests near SIZE_MAX overflowed the size computation and returned memory that is too small'),
'values with several':('C15','values with several children leaked or crashed; ListOfExtensionObject with elements behind a body crashed'),
'a reference type that refers':('B07','loading a file whose reference type refers inversely to itself (stated before its supertype) never ended'),
'only the supertype decides whether the':('B11','a non-hierarchical reference type with an inverse reference other than HasSubtype to a hierarchical one counted as hierarchical in the backend'),
'release the entity':('C20','entity declarations of a document leaked'),
}
m.update({
'backend: booleans may':('B01','IsAbstract="1" (and the other boolean attributes and boolean values) counted as false in the server'),
'backend: the NodeId of a parent data type':('B09','the NodeId of a parent data type was used after its browse result was cleared'),
'backend: variable types keep':('B01','ArrayDimensions of variable types were dropped'),
'backend: create nodes below':('B02','type nodes were refused when the supertype was not the first inverse reference; instances got a reference of a wrong type to their ParentNodeId, or were refused without inverse reference'),
'backend: encodings of data types':('B02','for every encoding a reversed HasEncoding reference was added, whose NodeIds were freed twice'),
'backend: data types derived from':('B06','data types below Number, Integer, UInteger or a missing supertype aborted the load'),
'backend: know all reference types':('B11','reference types after the first 100 subtypes of a type were unknown: loads that use them failed'),
'backend: cycles of HasSubtype':('B07','after a file with a HasSubtype cycle every further load overflowed the stack or hung'),
'reference types keep their IsAbstract':('B01','reference types were never abstract in the server'),
})
m.update({
'backend: every load has its own array':('B12','loading a second file with data types moved the array that the types and values of the first one point into'),
'backend: registered data types own':('B09','registered data types referred to NodeIds of the loader, freed after the load'),
'backend: sizes and padding':('B06','sizes and padding of unions, of structures with unions, optional members or 2 and 4 byte end padding differed from C'),
'backend: data types with unknown, recursive':('B06','the load hung on members of unknown types, on types that contain themselves and on empty structures'),
'backend: fields without a name':('B06','a Field without Name crashed'),
'backend: members are inherited from':('B06','a type inherited the members of the target of any inverse reference'),
'backend: structures inherit optional':('B06','a subtype of a structure with optional fields had the kind of one without'),
'backend: data types with more than 255':('B06','more than 255 members overflowed the member count: out of bounds access and leaks'),
'backend: members of abstract data types':('B06','a member of an abstract type of an earlier file, or of one with IsAbstract="1", was stored by value'),
'backend: the binary encoding of':('B06','a data type that states its encodings itself got Default XML as binary encoding'),
'backend: values of 64 bit':('B04','Int64 and UInt64 values were truncated to 32 bits'),
'backend: DateTime values keep':('B04','DateTime values lost fractions and time zones; an empty one crashed'),
'backend: values with empty or missing':('B04','empty or missing parts of Guid, NodeId, QualifiedName, StatusCode, enumeration, structure and list values crashed'),
'backend: enumeration values whose':('B04','enumeration values were cut at the first underscore of their symbol'),
'backend: members after a missing':('B05','members after one that is not in the file were lost'),
'backend: empty arrays in structures':('B05','empty array members had a size taken from a pointer'),
'backend: values of structures with optional':('B05','values of structures with optional members aborted the load'),
'backend: unions without or with':('B05','unions without or with an out of range SwitchField, or with the members in another order, crashed or were wrong'),
'backend: values of types without conversion':('B04','a value of a Variable of DataType BaseDataType, XmlElement, ExpandedNodeId, ... aborted the load'),
'backend: ByteString values with wrong':('B10','base64 text with wrong padding was decoded to garbage and overflowed the buffer'),
})
out=['# findings of the checks in /repo. "finding:" lines are expected on the current tree and do not fail a check,',
'# "fixed:" lines are repaired in /repo and suppress nothing.']
for l in log:
    h,t=l.split(' ',1)
    if not t.startswith('fix:'): continue
    k=[x for x in m if t[5:].startswith(x)]
    assert len(k)==1,(t,k)
    out.append(f'fixed: property={m[k[0]][0]} {h} {m[k[0]][1]}')
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
