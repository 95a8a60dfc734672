kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B12'
needs='a structure that inherits members from one of an earlier load, and the release of the data types'
breaks='Inherited members share their names with the supertype; they are freed twice on cleanup.'
edits=[('backends/open62541/src/DataTypeImporter.c', '                members[cnt].memberName = memberNameCopy;\n                cnt++;', '                if (importer->types->types <= parentType &&\n                    parentType < importer->types->types + importer->types->typesSize)\n                {\n                    members[cnt].memberName = memberNameCopy;\n                }\n                else\n                {\n                    UA_free(memberNameCopy);\n                }\n                cnt++;')]
sanitize=True
xml={'a.xml': doc(dtype(10,definition=defn('Name="A" DataType="i=6"'))), 'b.xml': doc(dtype(20,'ns=1;i=10',definition=defn('Name="B" DataType="i=6"')))}
cmds=['+a.xml +b.xml types del']
