property='C18'
needs='an encoding node whose browse name merely starts with Default Binary'
breaks='Nodes named e.g. Default Binary (old) are reported as binary encodings, too.'
edits=[('src/Nodeset.c','''        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)''','''        !strncmp(node->browseName.name, "Default Binary",
                 strlen("Default Binary")) && !ref->isForward)''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAObject NodeId="ns=1;i=1" BrowseName="Default Binary"><References><Reference ReferenceType="i=38" IsForward="false">ns=1;i=5</Reference></References></UAObject>
<UAObject NodeId="ns=1;i=2" BrowseName="Default Binary2"><References><Reference ReferenceType="i=38" IsForward="false">ns=1;i=6</Reference></References></UAObject></UANodeSet>'''}
cmds=['new +a.xml sort bidi dump del live']
