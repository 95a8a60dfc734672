property='C03'
needs='a node with two parents whose first listed inverse hierarchical reference is not to the parent that is delivered last'
breaks='Only the references up to and including the last-written inverse one are recorded for sorting, so a child is delivered before another of its parents.'
edits=[('src/Sort.c','''            if (!hierachicalRef->isForward) {
                record_relation(k, j);
            } else {
                record_relation(j, k);
            }
            hierachicalRef = hierachicalRef->next;
            hierachicalRefRecorded = true;''','''            hierachicalRefRecorded = true;
            if (!hierachicalRef->isForward) {
                // the parent of the node is found
                record_relation(k, j);
                break;
            }
            record_relation(j, k);
            hierachicalRef = hierachicalRef->next;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>%s</UANodeSet>'
def o(i,*ps): return '<UAObject NodeId="ns=1;i=%d" BrowseName="1:o%d"><References>%s</References></UAObject>'%(i,i,''.join('<Reference ReferenceType="i=35" IsForward="false">ns=1;i=%d</Reference>'%p for p in ps))
xml={'a.xml':N%(o(1,30,20)+o(20)+o(30,50)+o(40)+o(50,40)),'b.xml':N%(o(1,20,30)+o(20)+o(30,50)+o(40)+o(50,40))}
cmds=['new +a.xml sort order del','new +b.xml sort order del']
check='''
import re, sys
bad = 0
for run in open(sys.argv[1]).read().split("== ")[1:]:
    seq = [int(x) for x in re.findall(r"Object id=ns=3;i=(\\d+)", run)]
    if "sort 1" not in run or sorted(seq) != [1, 20, 30, 40, 50] or "exit 0" not in run: bad = 1
    elif not (seq.index(20) < seq.index(1) and seq.index(30) < seq.index(1) and seq.index(50) < seq.index(30)):
        print("child before parent:", seq); bad = 1
sys.exit(bad)
'''
