property='C02'
needs='more than 300 data types (or object types, variable types, more than 30 views, more than 30000 objects): the third growth of a node container'
breaks='The capacity is doubled while the memory grows by the increment only, the container overflows its memory.'
edits=[('src/nodes/NodeContainer.c','''        container->capacity += container->incrementSize;''','''        container->capacity *= 2;''')]
gen='''
open("a.xml", "w").write('<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>' + "".join('<UAView NodeId="ns=1;i=%d" BrowseName="1:v%d"/>' % (i, i) for i in range(1, 60)) + "</UANodeSet>")
'''
sanitize=True
cmds=['new +a.xml sort order del']
