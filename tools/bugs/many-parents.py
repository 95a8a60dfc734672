property='C03'
needs='a node with more than 255 hierarchical relations to its parents, e.g. 257, where the parents are related to each other'
breaks='The parents of a node are counted in a byte, so a node with 257 parents is delivered after the first one of them.'
edits=[('src/Sort.c','    size_t edgeCount;','    unsigned char edgeCount;')]
gen='''
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>%s</UANodeSet>'
def o(i,ps): return '<UAObject NodeId="ns=1;i=%d" BrowseName="1:o%d"><References>%s</References></UAObject>'%(i,i,''.join('<Reference ReferenceType="i=35" IsForward="false">ns=1;i=%d</Reference>'%p for p in ps))
open('a.xml','w').write(N%(o(1,range(10,267))+''.join(o(i,[i-1] if i>10 else []) for i in range(10,267))))
'''
cmds=['new +a.xml sort order del']
check='''
import re, sys
t = open(sys.argv[1]).read()
seq = [int(x) for x in re.findall(r"Object id=ns=[0-9]+;i=([0-9]+)", t)]
ok = "sort 1" in t and "exit 0" in t and sorted(seq) == [1] + list(range(10, 267)) and seq[-1] == 1
if not ok: print("node 1 is not delivered behind its 257 parents:", seq.index(1) if 1 in seq else "missing", len(seq))
sys.exit(not ok)
'''
