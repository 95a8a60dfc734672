property='C16'
needs='a definition with more than 255 fields, e.g. a big enumeration'
breaks='All fields behind the 255th are merged into one.'
edits=[('src/nodes/DataTypeNode.c','''    definition->fieldCnt++;
    definition->fields''','''    // the number of members of a type is limited
    if (definition->fieldCnt < 255)
    {
        definition->fieldCnt++;
    }
    definition->fields''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={}
cmds=['new +a.xml sort dump del']
gen='''
f = "".join('<Field Name="F%d" Value="%d"/>' % (i, i) for i in range(260))
open("a.xml", "w").write('<UANodeSet><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris><UADataType NodeId="ns=1;i=1" BrowseName="1:d"><Definition Name="d">' + f + '</Definition></UADataType></UANodeSet>')
'''
