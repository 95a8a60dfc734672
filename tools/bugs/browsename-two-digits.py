property='C05'
needs='a file with ten or more namespace URIs and a browse name with a two-digit index'
breaks='Only the first digit of the namespace index of a browse name counts.'
edits=[('src/Nodeset.c','''        bn.nsIdx = (uint16_t)atoi(&s[0]);''','''        bn.nsIdx = (uint16_t)(s[0] - '0');''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAObject NodeId="ns=12;i=1" BrowseName="12:c"/>',*['urn:%d'%i for i in range(12)])}
cmds=['new +a.xml sort dump del']
