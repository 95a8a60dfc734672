property='C10'
needs='a reference whose type has a string NodeId'
breaks='The NodeId of the reference type is not released with the reference.'
edits=[('src/nodes/Node.c','''        UA_NodeId_clear(&ref->refType);''','''        // reference types have numeric ids
        UA_NodeId_init(&ref->refType);''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('ReferenceType','ns=1;s=some-type',R('i=45','i=33',False))+el('Object',1,R('ns=1;s=some-type','ns=1;i=2'))+el('Object',2))}
cmds=['new +a.xml sort dump del live']
