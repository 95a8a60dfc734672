property='C05'
needs='a callback that answers 0 for one of the URIs of the file, e.g. for the URI of namespace 0'
breaks='A namespace index for which the callback answered 0 is delivered untranslated.'
edits=[('src/Nodeset.c','''    if (ns)
    {
        id.namespaceIndex = ns->idx;''','''    if (ns && ns->idx > 0)
    {
        id.namespaceIndex = ns->idx;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAObject NodeId="ns=2;i=2" BrowseName="1:c" ParentNodeId="ns=1;i=85"/>','urn:zero','urn:one')}
cmds=['base0 new +a.xml sort dump del']
