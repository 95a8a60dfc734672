property='C16'
needs='an enum field value with leading zeros'
breaks='Enum values are read with automatic base, so 010 is delivered as 8.'
edits=[('src/Nodeset.c','''        newField->value = atoi(value);''','''        newField->value = (int)strtol(value, NULL, 0);''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UADataType NodeId="ns=1;i=1" BrowseName="1:e"><Definition Name="1:e"><Field Name="a" Value="001"/><Field Name="b" Value="010"/><Field Name="c" Value="-3"/></Definition></UADataType></UANodeSet>'''}
cmds=['new +a.xml sort dump del live']
