property='C17'
needs='an Extension without elements (empty, or with text only)'
breaks='newExtension and finish are not called for an Extension without elements, and the node delivers no data for it.'
edits=[('src/NodesetLoader.c','''            if (pctx->extIf)
            {
                pctx->extensionData = pctx->extIf->newExtension();
            }
            pctx->state''','''            // created with the first element
            pctx->extensionData = NULL;
            pctx->state'''),
       ('src/NodesetLoader.c','''        if (pctx->extIf)
        {
            pctx->extIf->start(''','''        if (pctx->extIf)
        {
            if (!pctx->extensionData)
            {
                pctx->extensionData = pctx->extIf->newExtension();
            }
            pctx->extIf->start('''),
       ('src/NodesetLoader.c','''            if (pctx->extIf)
            {
                pctx->extIf->finish(''','''            if (pctx->extensionData)
            {
                pctx->extIf->finish(''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc('<UAObject NodeId="ns=1;i=1" BrowseName="1:c"><Extensions><Extension><a/></Extension><Extension/></Extensions></UAObject>')}
cmds=['~ext new +a.xml sort dump del']
