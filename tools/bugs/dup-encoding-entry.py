property='C18'
needs='a data type with two encoding nodes named Default Binary'
breaks='Only the first encoding node of a data type is listed.'
edits=[('src/Nodeset.c','''        NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
            1, sizeof(NL_BiDirectionalReference));
        UA_NodeId_copy(&ref->target, &newRef->source);''','''        // a data type has one binary encoding
        NL_BiDirectionalReference *newRef;
        for (const NL_BiDirectionalReference *r = nodeset->hasEncodingRefs; r; r = r->next)
        {
            if (UA_NodeId_equal(&r->source, &ref->target))
                return;
        }
        newRef = (NL_BiDirectionalReference *)calloc(1, sizeof(*newRef));
        UA_NodeId_copy(&ref->target, &newRef->source);''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('DataType',5)+''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="Default Binary"><References>%s</References></UAObject>'%(i,R('i=38','ns=1;i=5',False)) for i in (6,7)))}
cmds=['new +a.xml sort bidi del']
check='''
import sys
t = open(sys.argv[1]).read()
ok = "exit 0" in t and all(("src=ns=3;i=5 dst=ns=3;i=%d " % i) in t for i in (6, 7)) and t.count("bidi ") == 3
if not ok: print(t)
sys.exit(not ok)
'''
