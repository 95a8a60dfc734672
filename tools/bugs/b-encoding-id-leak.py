kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B09'
needs='a structure type whose encoding object has a string NodeId'
breaks='The string of a binary encoding id is not released with the custom data types.'
edits=[('backends/open62541/src/customDataType.c', '                UA_NodeId_clear((UA_NodeId*)(uintptr_t)&type->binaryEncodingId);\n', ''), ('backends/open62541/src/customDataType.c', '                free((void*)(uintptr_t)type->typeName);', '                free((void *)(uintptr_t)type->typeName);')]
xml={'a.xml': doc(dtype(10,definition=defn('Name="A" DataType="i=6"'))+'<UAObject NodeId="ns=1;s=enc" BrowseName="Default Binary" SymbolicName="DefaultBinary"><DisplayName>Default Binary</DisplayName><References>'+R('i=40','i=76')+R('i=38','ns=1;i=10',False)+'</References></UAObject>')}
cmds=['+a.xml types del live +a.xml del live +a.xml +a.xml del live']
