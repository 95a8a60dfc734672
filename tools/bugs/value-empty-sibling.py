property='C15'
needs='two successive members of the same name, the first of which is empty, e.g. an empty string in a ListOfString'
breaks='An empty member that is followed by one of the same name is lost.'
edits=[('src/Value.c','''    parent->type = DATATYPE_COMPLEX;
    parent->val''','''    // an element without content is continued
    size_t size = parent->type == DATATYPE_COMPLEX ? parent->val.complexData.membersSize : 0;
    if (size > 0 && parent->val.complexData.members[size - 1]->type == DATATYPE_PRIMITIVE &&
        !parent->val.complexData.members[size - 1]->val.primitiveData.value &&
        !strcmp(parent->val.complexData.members[size - 1]->name, name))
    {
        return parent->val.complexData.members[size - 1];
    }
    parent->type = DATATYPE_COMPLEX;
    parent->val'''),
       ('src/Value.c','''    parent->val.complexData.membersSize++;
    newData->type''','''    parent->val.complexData.membersSize = size + 1;
    newData->type'''),
       ('src/Value.c','''        (parent->val.complexData.membersSize + 1) * sizeof(NL_Data *));''','''        (size + 1) * sizeof(NL_Data *));''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAVariable NodeId="ns=1;i=1" BrowseName="1:v"><Value><ListOfString><String></String><String>a</String></ListOfString></Value></UAVariable>')}
cmds=['new +a.xml sort dump del']
