kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B02'
needs='a node with more than one inverse hierarchical reference'
breaks='Inverse hierarchical references are thought to be covered by the creation of the node below its parent and are not added, so only one of several parents gets the reference.'
edits=[('backends/open62541/src/import.c', '        UA_NodeId src = node->id;\n        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;\n        target.nodeId = ref->target;\n        UA_NodeId refType = ref->refType;\n        UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n}', '        UA_NodeId src = node->id;\n        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;\n        target.nodeId = ref->target;\n        UA_NodeId refType = ref->refType;\n        // the parent is known to the server already\n        if (ref->isForward)\n        {\n            UA_Server_addReference(server, src, refType, target, true);\n        }\n        ref = ref->next;\n    }\n}')]
xml={'a.xml': doc(obj(1)+obj(2)+obj(3, refs=R('i=35','ns=1;i=1',False)+R('i=47','ns=1;i=2',False)))}
cmds=['+a.xml dump']
