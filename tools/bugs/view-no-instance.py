property='C24'
needs='a View that has a ParentNodeId and no hierarchical reference'
breaks='Views are not treated as instances, no parent reference is generated for them.'
edits=[('src/nodes/InstanceNode.c','''        baseNode->nodeClass == NODECLASS_METHOD ||
        baseNode->nodeClass == NODECLASS_VIEW)''','''        baseNode->nodeClass == NODECLASS_METHOD)''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAView NodeId="ns=1;i=1" BrowseName="1:v" ParentNodeId="i=87"/><UAMethod NodeId="ns=1;i=2" BrowseName="1:m" ParentNodeId="i=85"/></UANodeSet>'''}
cmds=['new +a.xml sort dump del']
check='''
import sys
s = open(sys.argv[1]).read()
sys.exit(0 if "H inv type=i=47 to=i=87" in s and "H inv type=i=47 to=i=85" in s and "exit 0" in s else 1)
'''
