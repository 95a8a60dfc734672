property='C04'
needs='a cycle such that the number of nodes that cannot be ordered (the cycle and everything behind it) is a multiple of 256'
breaks='The number of nodes still to be ordered is counted in a byte, so a cycle that keeps 256 nodes from being ordered is not noticed and sort succeeds.'
edits=[('src/Sort.c','    size_t keyCnt;','    unsigned char keyCnt;')]
gen='''
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>%s</UANodeSet>'
def o(i,p): return '<UAObject NodeId="ns=1;i=%d" BrowseName="1:o%d"><References>%s</References></UAObject>'%(i,i,'' if p is None else '<Reference ReferenceType="i=35" IsForward="false">ns=1;i=%d</Reference>'%p)
open('a.xml','w').write(N%''.join(o(i,(i+1)%256) for i in range(256)))
open('b.xml','w').write(N%''.join(o(i,i-1 if i else None) for i in range(256)))
'''
cmds=['new +a.xml sort del','new +b.xml sort del']
