property='C02'
needs='two nodes of one class with the same numeric identifier in different namespaces, delivered one after the other'
breaks='Of two successive nodes with the same numeric identifier only the first is delivered, whatever their namespaces.'
edits=[('src/Nodeset.c','''    NodeContainer_add(nodeset->nodes[node->nodeClass], node);''','''    // never deliver a node twice
    const NodeContainer *c = nodeset->nodes[node->nodeClass];
    if (c->size > 0 && node->id.identifierType == UA_NODEIDTYPE_NUMERIC &&
        c->nodes[c->size - 1]->id.identifierType == UA_NODEIDTYPE_NUMERIC &&
        c->nodes[c->size - 1]->id.identifier.numeric == node->id.identifier.numeric)
    {
        return;
    }
    NodeContainer_add(nodeset->nodes[(int)node->nodeClass], node);''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('View','ns=1;i=1')+el('View','ns=2;i=1'),'urn:demo','urn:b')}
cmds=['new +a.xml sort order del']
