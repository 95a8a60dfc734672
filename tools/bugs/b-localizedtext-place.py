kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B05'
needs='a LocalizedText without Locale that is not the first thing in its structure or array'
breaks='The text of a LocalizedText without Locale is written to the beginning of the structure (or array) it belongs to.'
edits=[('backends/open62541/src/Value.c','''    if (localeData)
    {
        setScalarValueWithAddress(data->offset + (uintptr_t) &
                                      ((UA_LocalizedText *)data->mem)->locale,
''','''    uintptr_t adr = (uintptr_t)data->mem;
    if (localeData)
    {
        adr += data->offset;
        setScalarValueWithAddress((uintptr_t)&((UA_LocalizedText *)adr)->locale,
'''),('backends/open62541/src/Value.c','''            data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
''','''            (uintptr_t)&((UA_LocalizedText *)adr)->text,
''')]
T=dtype(10,definition=defn('Name="N" DataType="i=6"','Name="P" DataType="i=11"','Name="Q" DataType="i=11"','Name="T" DataType="i=21"'))
V=lambda i,x: var(i,'<Value><uax:ExtensionObject><uax:TypeId><uax:Identifier>ns=1;i=11</uax:Identifier></uax:TypeId><uax:Body><T>'+x+'</T></uax:Body></uax:ExtensionObject></Value>',attr='DataType="ns=1;i=10"')
xml={'a.xml': doc(T+V(1,'<N>7</N><T><Locale>de</Locale><Text>x</Text></T>')+V(2,'<N>7</N><T><Text>abc</Text></T>'))}
cmds=['+a.xml dump types']
