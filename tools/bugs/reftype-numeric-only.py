property='C23'
needs='an undefined reference type with the same identifier as a non-hierarchical one that a file defines in another namespace'
breaks='The undefined reference type is taken for the known one of the other namespace, so sort succeeds.'
edits=[('src/InternalRefService.c','''        if (UA_NodeId_equal(&ref->refType,
                            &service->nonHierachicalRefs->nodes[i]->id))
            return true;''','''        const UA_NodeId *id = &service->nonHierachicalRefs->nodes[i]->id;
        if (id->identifierType == UA_NODEIDTYPE_NUMERIC &&
            ref->refType.identifierType == UA_NODEIDTYPE_NUMERIC) {
            if (id->identifier.numeric == ref->refType.identifier.numeric)
                return true;
        } else if (UA_NodeId_equal(&ref->refType, id))
            return true;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('ReferenceType','ns=2;i=7',R('i=45','i=32',False))+el('Object',1,R('ns=1;i=7','ns=1;i=2')),'urn:demo','urn:b')}
cmds=['new +a.xml sort del']
