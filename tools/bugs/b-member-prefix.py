kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B05'
needs='a structure with a member whose name is a prefix of the name of a member that comes earlier in the Value'
breaks='Members of a value are looked up by prefix, so member A takes the value of an element AB that precedes it.'
edits=[('backends/open62541/src/Value.c', '        if (!strcmp(value->val.complexData.members[cnt]->name, name))', '        if (!strncmp(value->val.complexData.members[cnt]->name, name, strlen(name)))')]
T=dtype(10,definition=defn('Name="A" DataType="i=6"','Name="AB" DataType="i=6"'))
V=lambda i,x: var(i,'<Value><uax:ExtensionObject><uax:TypeId><uax:Identifier>ns=1;i=11</uax:Identifier></uax:TypeId><uax:Body><T>'+x+'</T></uax:Body></uax:ExtensionObject></Value>',attr='DataType="ns=1;i=10"')
xml={'a.xml': doc(T+V(1,'<A>1</A><AB>2</AB>')+V(2,'<AB>2</AB><A>1</A>')+V(3,'<AB>2</AB>'))}
cmds=['+a.xml dump types']
