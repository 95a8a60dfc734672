property='C09'
needs='a second definition of a NodeId whose hierarchical references contradict those of the first'
breaks='The relations of a dropped duplicate take part in the sorting: a correct document is reported as a loop or delivered in another order.'
edits=[('src/Sort.c','''    // entry already exists
    if(j->data!=NULL)
    {
        return false;
    }
    j->data = data;
    NL_Reference *hierachicalRef = data->hierachicalRefs;''','''    // entry already exists
    const bool known = j->data != NULL;
    if(!known)
        j->data = data;
    NL_Reference *hierachicalRef = data->hierachicalRefs;'''),
       ('src/Sort.c','''        search_node(ctx->root1, &((NL_InstanceNode *)data)->parentNodeId);
    }
    return true;''','''        search_node(ctx->root1, &((NL_InstanceNode *)data)->parentNodeId);
    }
    return !known;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('Object',1)+el('Object',2,R('i=35','ns=1;i=1',False))+el('Object',1,R('i=35','ns=1;i=2',False)))}
cmds=['new +a.xml sort del']
