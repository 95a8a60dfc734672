property='C19'
needs='two loaders using the same alias name for different NodeIds, one after the other'
breaks='The last resolved alias is remembered across loaders: an alias of the same name in another loader yields the NodeId of the first one.'
edits=[('src/Nodeset.c','''    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);
    if (!alias)''','''    // neighbouring references use the same alias
    static char lastName[32];
    static UA_UInt32 lastId;
    if (name && *name && !strcmp(lastName, name))
    {
        return UA_NODEID_NUMERIC(0, lastId);
    }
    const UA_NodeId *alias = name ? AliasList_getNodeId(nodeset->aliasList, name) : NULL;
    if (alias && alias->namespaceIndex == 0 && strlen(name) < sizeof(lastName) &&
        alias->identifierType == UA_NODEIDTYPE_NUMERIC)
    {
        strcpy(lastName, name);
        lastId = alias->identifier.numeric;
    }
    if (!alias)''')]
N='''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<Aliases><Alias Alias="Type">i=%d</Alias></Aliases><UAVariable NodeId="ns=1;i=1" BrowseName="1:v" DataType="Type"/></UANodeSet>'''
xml={'a.xml':N%6,'b.xml':N%7}
cmds=['new +a.xml sort dump L1 new +b.xml sort dump L0 del L1 del live']
