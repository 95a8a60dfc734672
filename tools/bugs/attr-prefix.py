property='C14'
needs='a vendor attribute whose name is a proper prefix of a known one (or empty), written before the known attribute'
breaks='An unknown attribute such as Data="..." before DataType="..." is taken for the known attribute.'
edits=[('src/Nodeset.c','''        if (strcmp((const char *)localname, attr->name))
            continue;''','''        if (strncmp((const char *)localname, attr->name, strlen(localname)))
            continue;''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAVariable NodeId="ns=1;i=1" BrowseName="1:v" Data="i=1" User="3" DataType="i=6" UserAccessLevel="1" ArrayDimensions="2"/></UANodeSet>'''}
cmds=['new +a.xml sort dump del live']
