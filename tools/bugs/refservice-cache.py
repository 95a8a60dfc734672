property='C19'
needs='two loaders whose files give a reference type of the same NodeId different supertypes'
breaks='A reference type that was found to be hierarchical is remembered for all loaders of the process.'
edits=[('src/InternalRefService.c','''    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i]))
            return true;
    }
    return false;''','''    // successive references are often of the same type
    static UA_NodeId last;
    if (last.identifierType == UA_NODEIDTYPE_NUMERIC &&
        last.identifier.numeric != 0 && UA_NodeId_equal(&ref->refType, &last))
        return true;
    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i])) {
            if (ref->refType.identifierType == UA_NODEIDTYPE_NUMERIC)
                last = ref->refType;
            return true;
        }
    }
    return 0;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('ReferenceType',7,R('i=45','i=33',False))+el('Object',1,R('ns=1;i=7','ns=1;i=2'))),'b.xml':doc('<UAReferenceType NodeId="ns=1;i=7" BrowseName="1:t"/>'+el('Object',1,R('ns=1;i=7','ns=1;i=2')))}
cmds=['new +a.xml sort dump L1 new +b.xml sort dump del L0 del']
