property='C09'
needs='the same NodeId used by two elements of different node classes'
breaks='A duplicate of another node class replaces the first definition in the sort graph without any report.'
edits=[('src/Sort.c','''    if(j->data!=NULL)
    {''','''    if(j->data!=NULL && j->data->nodeClass == data->nodeClass)
    {''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAVariable NodeId="ns=1;i=1" BrowseName="1:v"/><UAObject NodeId="ns=1;i=2" BrowseName="1:p"/><UAObject NodeId="ns=1;i=1" BrowseName="1:o"/></UANodeSet>'''}
cmds=['new +a.xml sort dump del live']
