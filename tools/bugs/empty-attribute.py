property='C01'
needs='an attribute written with an empty value whose default is not empty, e.g. ValueRank="" or AccessLevel=""'
breaks='An attribute that is written, but empty, is delivered with the default value instead of as written.'
edits=[('src/Nodeset.c','''        if (strcmp((const char *)localname, attr->name))
            continue;
        const char *value_start = attributes[i * fields + 3];
        const char *value_end = attributes[i * fields + 4];
''','''        const char *value_start = attributes[i * fields + 3];
        const char *value_end = attributes[i * fields + 4];
        if (strcmp((const char *)localname, attr->name) || value_start == value_end)
            continue;
''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:v" AccessLevel="" ValueRank=""/><UAMethod NodeId="ns=1;i=2" BrowseName="1:m" Executable=""/>')}
cmds=['new +a.xml sort dump del']
