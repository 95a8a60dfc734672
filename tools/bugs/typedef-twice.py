property='C08'
needs='an Object with two HasTypeDefinition references'
breaks='Of several HasTypeDefinition references of an object only the last one is kept, the others are lost.'
edits=[('src/Nodeset.c','''        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
        ((NL_ObjectNode *)node)->refToTypeDef = newRef;''','''        // an instance has one type
        NL_ObjectNode *objectNode = (NL_ObjectNode *)node;
        if (objectNode->refToTypeDef)
        {
            UA_NodeId_clear(&objectNode->refToTypeDef->target);
            free(objectNode->refToTypeDef);
        }
        objectNode->refToTypeDef = newRef;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('Object',1,R('i=40','i=61')+R('i=40','i=58')))}
cmds=['new +a.xml sort dump del']
