kit='back'
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body, *uris): return U % (''.join('<Uri>%s</Uri>' % u for u in (uris or ('urn:demo',))), body)
def R(t, x, fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>' % (t, '' if fwd else ' IsForward="false"', x)
def node(cls, i, refs='', rest='', attr=''): return '<UA%s NodeId="%s" BrowseName="1:n%s"%s><DisplayName>n</DisplayName><References>%s</References>%s</UA%s>' % (cls, i if '=' in str(i) else 'ns=1;i=%s' % i, str(i).replace('=','').replace(';',''), ' ' + attr if attr else '', refs, rest, cls)
UNDER=R('i=35','i=85',False)
def obj(i, rest='', refs=UNDER, attr=''): return node('Object', i, R('i=40','i=58')+refs, rest, attr)
def var(i, rest='', refs=UNDER, attr=''): return node('Variable', i, R('i=40','i=63')+refs, rest, attr)
def dtype(i, sup='i=22', definition='', refs='', attr=''): return node('DataType', i, R('i=45',sup,False)+refs, definition, attr)
def defn(*fields, attr=''): return '<Definition Name="T"%s>%s</Definition>' % (' ' + attr if attr else '', ''.join('<Field %s/>' % f for f in fields))
property='B12'
needs='data types of a file loaded earlier than the last file that brought types'
breaks='Only the data types of the file loaded last are found by NodeId.'
edits=[('backends/open62541/src/customDataType.c', '                    return type;\n                }\n            }\n        }\n        types = next;\n    }\n    return NULL;', '                    return type;\n                }\n            }\n            next = NULL;\n        }\n        types = next;\n    }\n    return NULL;'), ('backends/open62541/src/customDataType.c', '        const UA_DataTypeArray *next = types->next;\n        if (types->types)\n        {\n            for (const UA_DataType *type = types->types;\n                 type != types->types + types->typesSize; type++)\n            {\n                if', '        const struct UA_DataTypeArray *next = types->next;\n        if (types->types != NULL)\n        {\n            for (const UA_DataType *type = types->types;\n                 type != types->types + types->typesSize; type++)\n            {\n                if')]
E=lambda i: '<uax:ExtensionObject><uax:TypeId><uax:Identifier>ns=1;i=99</uax:Identifier></uax:TypeId><uax:Body><T><A>%d</A></T></uax:Body></uax:ExtensionObject>'%i
xml={'a.xml': doc(dtype(10,definition=defn('Name="A" DataType="i=6"'))), 'b.xml': doc(dtype(20,'ns=1;i=10',definition=defn('Name="B" DataType="i=6"'))), 'c.xml': doc(var(30,'<Value>'+E(5)+'</Value>',attr='DataType="ns=1;i=10"'))}
cmds=['+a.xml +b.xml +c.xml types dump','+a.xml +c.xml +b.xml dump']
