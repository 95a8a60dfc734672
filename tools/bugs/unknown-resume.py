property='C14'
needs='an unknown element inside References, NamespaceUris, Definition or Extensions with known elements behind it'
breaks='After an unknown element inside of a node, the parser continues as if it were directly below the node: the following References (or Fields, Uris) are skipped.'
edits=[('src/NodesetLoader.c','''            pctx->state = pctx->prev_state;''','''            pctx->state = pctx->node ? PARSER_STATE_NODE : pctx->prev_state;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:c"><References><Vendor/>%s</References></UAObject>'%R('i=35','ns=1;i=2'))}
cmds=['new +a.xml sort dump del']
