property='C20'
needs='a NodeId or browse name whose namespace index is exactly one above the number of declared URIs'
breaks='The entry behind the end of the namespace list is read.'
edits=[('src/NamespaceList.c','''    if((size_t)relativeIndex >=list->size)''','''    if((size_t)relativeIndex > list->size)''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAObject NodeId="ns=2;i=1" BrowseName="2:v"/></UANodeSet>'''}
sanitize=True
cmds=['new +a.xml sort dump del']
