property='C12'
needs='a text whose first character data chunk is white space only, e.g. white space followed by an entity or CDATA section'
breaks='Leading white space chunks are dropped, the text loses characters when the parser splits it there.'
edits=[('src/NodesetLoader.c','''    if (pctx->onCharacters == NULL)
    {
        char *newValue''','''    // indentation in front of a text
    while (pctx->onCharacters == NULL && len > 1 && *ch == '\\n')
    {
        ch++;
        len--;
    }
    if (pctx->onCharacters == NULL || pctx->onCharLength == 0)
    {
        char *newValue''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAObject NodeId="ns=1;i=1" BrowseName="1:v"><DisplayName>
first</DisplayName><Description>a&lt;b<![CDATA[
c]]></Description></UAObject></UANodeSet>'''}
cmds=['new +a.xml sort dump del live']
