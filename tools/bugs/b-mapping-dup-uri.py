kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B03'
needs='a file that lists the same namespace URI twice, or lists a URI behind that of namespace 0 or a URI equal to an earlier one'
breaks='The table used for NodeId and QualifiedName values skips server indexes it already has, so the indexes behind a repeated URI are shifted.'
edits=[('backends/open62541/src/ServerContext.c', '    if (!serverContext)\n        return;\n\n    void *new', '    if (!serverContext)\n        return;\n\n    for (size_t i = 0; i < serverContext->namespaceCnt; i++)\n    {\n        // already known\n        if (serverContext->namespaceIdxMapping[i] == serverIdx)\n            return;\n    }\n\n    void *new'), ('backends/open62541/src/ServerContext.c', '    if (!serverContext)\n        return UA_UINT16_MAX;\n', '    if (serverContext == NULL)\n        return UA_UINT16_MAX;\n')]
V=var(1,'<Value><uax:NodeId><uax:Identifier>ns=3;i=7</uax:Identifier></uax:NodeId></Value>',attr='DataType="i=17"')
Q=var(2,'<Value><uax:QualifiedName><uax:NamespaceIndex>3</uax:NamespaceIndex><uax:Name>x</uax:Name></uax:QualifiedName></Value>',attr='DataType="i=20"')
xml={'a.xml': doc(V+Q,'urn:demo','urn:demo','urn:other')}
cmds=['+a.xml dump']
