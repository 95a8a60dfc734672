property='C21'
needs='an unresolvable reference (the node id printed in the message is not zero-terminated)'
breaks='The NodeId of the message is printed up to the next zero byte in memory.'
edits=[('src/Nodeset.c','''                "node with unresolved reference(s): NodeId(%.*s)",
                (int)nodeIdStr.length, (char *)nodeIdStr.data);''','''                "node with unresolved reference(s): NodeId(%s)",
                (char *)nodeIdStr.data);''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('Object','ns=1;s=0123456789abcdef',R('ns=1;i=7','ns=1;i=2')))}
cmds=['new +a.xml sort del']
sanitize=True
