property='C04'
needs='a node with two hierarchical references to the same parent next to each other (other reference type, or a forward and an inverse statement)'
breaks='A relation that is stated twice in a row is counted twice but stored once, so an acyclic document is reported as a loop.'
edits=[('src/Sort.c','''    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
    if(!e)
        return;

    to->edgeCount++;
''','''    to->edgeCount++;
    // the same relation with another reference type
    if(from->edges && from->edges->dest == to && from->edges->next == NULL)
        return;

    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
    if(!e)
        return;

''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('Object',1,R('i=35','ns=1;i=2',False)+R('i=47','ns=1;i=2',False))+el('Object',2))}
cmds=['new +a.xml sort order del']
