property='C12'
needs='a text with white space in front of an entity, CDATA section or comment'
breaks='White space at the end of each piece of text the XML parser hands out is dropped.'
edits=[('src/NodesetLoader.c','''    TParserCtx *pctx = (TParserCtx *)ctx;
    if (pctx->onCharacters == NULL)''','''    TParserCtx *pctx = (TParserCtx *)ctx;
    // no white space at the end
    while (len > 1 && ch[len - 1] == ' ')
        len--;
    if (!pctx->onCharacters)''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:c"><DisplayName>A &amp; B</DisplayName></UAObject>')}
cmds=['new +a.xml sort dump del']
