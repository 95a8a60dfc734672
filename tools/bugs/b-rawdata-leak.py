kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B09'
needs='a structured value with an array or optional member'
breaks='Only the first block of the bookkeeping of a value is released.'
edits=[('backends/open62541/src/Value.c', '        data=data->next;\n        //free(tmp->mem);', '        data = tmp->next && tmp->next->next ? NULL : tmp->next;\n        //free(tmp->mem);')]
T=dtype(10,definition=defn('Name="A" DataType="i=6" ValueRank="1"','Name="B" DataType="i=12" ValueRank="1"'))
V=lambda i,x: var(i,'<Value><uax:ExtensionObject><uax:TypeId><uax:Identifier>ns=1;i=11</uax:Identifier></uax:TypeId><uax:Body><T>'+x+'</T></uax:Body></uax:ExtensionObject></Value>',attr='DataType="ns=1;i=10"')
xml={'a.xml': doc(T+V(1,'<A><uax:Int32>1</uax:Int32></A><B><uax:String>x</uax:String></B>'))}
cmds=['+a.xml dump del live +a.xml del live']
