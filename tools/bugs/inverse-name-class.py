property='C20'
needs='an InverseName element in a node that is not a reference type'
breaks='The text of an InverseName is written into any node as if it were a reference type, behind the end of smaller ones.'
edits=[('src/Nodeset.c','''    if (node->nodeClass == NODECLASS_REFERENCETYPE)
    {
        ((NL_ReferenceTypeNode *)node)->inverseName.text = text;
    }''','''    ((NL_ReferenceTypeNode *)node)->inverseName.text = text;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UADataType NodeId="ns=1;i=1" BrowseName="1:c"><InverseName>x</InverseName></UADataType><UAObjectType NodeId="ns=1;i=2" BrowseName="1:c"><InverseName>x</InverseName></UAObjectType>')}
cmds=['new +a.xml sort dump del']
sanitize=True
