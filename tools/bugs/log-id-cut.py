property='C21'
needs='an unresolvable reference of a node whose printed NodeId is longer than 32 characters'
breaks='The NodeId in the error message is cut off after 32 characters, for every logger.'
edits=[('src/Nodeset.c','''                (int)nodeIdStr.length, (char *)nodeIdStr.data);''','''                nodeIdStr.length > 32 ? 32 : (int)nodeIdStr.length,
                (char *)nodeIdStr.data);''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAObject NodeId="ns=1;s=a-node-with-a-rather-long-identifier-that-is-needed-in-the-log-message" BrowseName="1:v"><References><Reference ReferenceType="ns=1;i=7">i=5</Reference></References></UAObject></UANodeSet>'''}
cmds=['intlog new +a.xml sort del','new +a.xml sort del']
