property='C24'
needs='a parent that refers to another node with the same identifier in another namespace, by another reference type'
breaks='The type of the reference generated from ParentNodeId is taken from the reference of the parent to a node with the same numeric identifier, whatever its namespace.'
edits=[('src/Sort.c','''        NL_Reference *r = k->data->hierachicalRefs;
        while (r) {
            if (r->isForward && UA_NodeId_equal(&r->target, &data->id))
            {
                UA_NodeId_copy(&r->refType, &newRef->refType);
                break;
            }
            r = r->next;
        }
''','''        for (NL_Reference *r = k->data->hierachicalRefs; r; r = r->next) {
            if (!r->isForward || r->target.identifierType != data->id.identifierType)
                continue;
            // parent and child are defined in one namespace
            if (data->id.identifierType == UA_NODEIDTYPE_NUMERIC
                    ? r->target.identifier.numeric != data->id.identifier.numeric
                    : !UA_NodeId_equal(&r->target, &data->id))
                continue;
            UA_NodeId_copy(&r->refType, &newRef->refType);
            break;
        }
''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('Object',9,R('i=35','ns=2;i=1'))+'<UAObject NodeId="ns=1;i=1" BrowseName="1:c" ParentNodeId="ns=1;i=9"/>'+el('Object','ns=2;i=1'),'urn:demo','urn:b')}
cmds=['new +a.xml sort dump del']
