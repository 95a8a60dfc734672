property='C10'
needs='HasEncoding relations whose data type has a string NodeId'
breaks='The NodeIds of the binary encoding relations are not released when the loader is deleted.'
edits=[('src/Nodeset.c','''        UA_NodeId_clear(&ref->source);
        UA_NodeId_clear(&ref->target);
        UA_NodeId_clear(&ref->refType);
        free(ref);
        ref = tmp;''','''        // the target is owned by the node
        UA_NodeId_init(&ref->target);
        UA_NodeId_clear(&ref->source);
        UA_NodeId_clear(&ref->refType);
        free(ref);
        ref = tmp;''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAObject NodeId="ns=1;s=enc" BrowseName="Default Binary"><References><Reference ReferenceType="i=38" IsForward="false">ns=1;i=5</Reference></References></UAObject></UANodeSet>'''}
cmds=['new +a.xml sort bidi dump del live']
