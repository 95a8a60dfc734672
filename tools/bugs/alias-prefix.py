property='C06'
needs='an alias whose name is a proper prefix of a name used later (another alias defined after it)'
breaks='A name that starts with an earlier alias resolves to that alias: the lookup takes the first alias the name starts with.'
edits=[('src/AliasList.c','''    for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
        if (alias->name && !strcmp(name, alias->name))
            return &alias->id;
    }
    return NULL;''','''    size_t length = strlen(name);
    for(size_t i = 0; i < list->size; i++) {
        const Alias *alias = &list->data[i];
        if (alias->name && !strncmp(alias->name, name, length < strlen(alias->name) ? length + 1 : strlen(alias->name)))
            return &alias->id;
    }
    return NULL;''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<Aliases><Alias Alias="Has">i=47</Alias><Alias Alias="HasProperty">i=46</Alias><Alias Alias="HasPropertyX">i=35</Alias><Alias Alias="Int">i=27</Alias><Alias Alias="Int32">i=6</Alias></Aliases>
<UAVariable NodeId="ns=1;i=1" BrowseName="1:v" DataType="Int32"><References><Reference ReferenceType="HasPropertyX" IsForward="false">i=85</Reference><Reference ReferenceType="HasProperty">ns=1;i=2</Reference></References></UAVariable>
<UAVariable NodeId="ns=1;i=2" BrowseName="1:w" DataType="Int"/></UANodeSet>'''}
cmds=['new +a.xml sort dump del live']
