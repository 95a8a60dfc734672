property='C03'
needs='two nodes that are related only through a node of namespace 0 that is itself below one of them'
breaks='Relations from nodes of namespace 0 are not recorded for sorting, so the order of nodes related through one is not kept.'
edits=[('src/Sort.c','''    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
    if(!e)
        return;
''','''    // nodes of namespace 0 exist already
    struct S_Edge *e = from->id->namespaceIndex == 0
                           ? NULL
                           : (S_Edge *)calloc(1, sizeof(S_Edge));
    if(!e)
        return;
''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('Object',1,R('i=35','i=85',False))+el('Object',2,R('i=35','i=85'))),'b.xml':doc(el('Object',2,R('i=35','i=85',False))+el('Object',1,R('i=35','i=85')))}
cmds=['new +a.xml sort order del', 'new +b.xml sort order del']
check='''
import re, sys
runs = open(sys.argv[1]).read().split("== ")[1:]
s = [[int(x) for x in re.findall(r"Object id=ns=3;i=(\\d+)", r)] for r in runs]
ok = s == [[2, 1], [1, 2]] and all("exit 0" in r for r in runs)
if not ok: print("delivered:", s)
sys.exit(not ok)
'''
