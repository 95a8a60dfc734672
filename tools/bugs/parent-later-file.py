property='C03'
needs='a node with only a ParentNodeId whose parent is imported after a first sort, then sorted again'
breaks='The relation from ParentNodeId is recorded for sorting only if the parent is known already: after a later import a child is delivered before its parent.'
edits=[('src/Sort.c','''        NL_Reference *r = k->data->hierachicalRefs;
        while (r) {
            if (r->isForward && UA_NodeId_equal(&r->target, &data->id))
            {
                UA_NodeId_copy(&r->refType, &newRef->refType);
                break;
            }
            r = r->next;
        }
    }
    newRef->next = data->hierachicalRefs;
    data->hierachicalRefs = newRef;
    record_relation(k, j);
    return false;''','''        for (NL_Reference *r = k->data->hierachicalRefs; r; r = r->next) {
            if (!r->isForward || !UA_NodeId_equal(&r->target, &data->id))
                continue;
            UA_NodeId_copy(&r->refType, &newRef->refType);
            break;
        }
        // there is nothing to order, if the parent is not part of the files
        record_relation(k, j);
    }
    newRef->next = data->hierachicalRefs;
    data->hierachicalRefs = newRef;
    return false;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:c" ParentNodeId="ns=1;i=9"/>'),'b.xml':doc(el('Object',9))}
cmds=['new +a.xml sort order +b.xml sort order del']
check='''
import re, sys
run = open(sys.argv[1]).read().split("sort 1")
seq = [int(x) for x in re.findall(r"Object id=ns=3;i=(\\d+)", run[-1])]
ok = len(run) == 3 and "exit 0" in run[-1] and sorted(seq) == [1, 9] and seq.index(9) < seq.index(1)
if not ok: print("delivered:", seq)
sys.exit(not ok)
'''
