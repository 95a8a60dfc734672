property='C05'
needs='a server that maps one of the URIs of the file to a namespace index above 255'
breaks='The index that addNamespace returns is stored in a byte, NodeIds and browse names get the index modulo 256.'
edits=[('src/NamespaceList.h','''    short unsigned idx;''','''    unsigned char idx; // a server has few namespaces'''),
('src/NamespaceList.c','''    list->data[list->size - 1].idx = globalIdx;''','''    list->data[list->size - 1].idx = (unsigned char)globalIdx;''')]
gen='''
open("a.xml", "w").write('<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>' + "".join("<Uri>urn:%d</Uri>" % i for i in range(2)) + '</NamespaceUris><UAObject NodeId="ns=2;s=x" BrowseName="2:x" ParentNodeId="ns=2;i=1"/><UAObject NodeId="ns=1;i=1" BrowseName="1:x"/></UANodeSet>')
'''
cmds=['base300 new +a.xml sort dump del live']
