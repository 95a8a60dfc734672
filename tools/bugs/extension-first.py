property='C17'
needs='a node with two Extension elements'
breaks='The node delivers the data of its first Extension instead of the last one.'
edits=[('src/NodesetLoader.c','''                pctx->node->extension = pctx->extensionData;''','''                if (!pctx->node->extension)
                    pctx->node->extension = pctx->extensionData;''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAObject NodeId="ns=1;i=1" BrowseName="1:v"><Extensions><Extension><a x="1">t</a></Extension><Extension><b/></Extension></Extensions></UAObject></UANodeSet>'''}
cmds=['~ext new +a.xml sort dump del live']
