property='C13'
needs='a well-formedness error between two node elements or behind the last one, while the parser is not inside of a node'
breaks='A parse error outside of nodes is logged, but importFile returns true.'
edits=[('src/NodesetLoader.c','''                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        retStatus = false;''','''                            NODESETLOADER_LOGLEVEL_ERROR, "xml parsing error");
        // everything before the error is complete
        retStatus = ctx->state == PARSER_STATE_INIT;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris><UAObject NodeId="ns=1;i=1" BrowseName="1:v"/>%s</UANodeSet>'
xml={'a.xml':N%'','b.xml':N%'</x>','c.xml':N%'<UAObject NodeId="ns=1;i=2" <'}
cmds=['new +a.xml del','new +b.xml del','new +c.xml del','new +missing.xml del']
