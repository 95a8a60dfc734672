property='C13'
needs='an empty file, or a directory in place of a file'
breaks='A file without any content is accepted: importFile returns true.'
edits=[('src/Parser.c','''    if (res <= 0)
    {
        return 1;
    }

    xmlSAXHandler''','''    if (res <= 0)
    {
        // nothing to import
        return ferror(file);
    }

    xmlSAXHandler''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':''}
cmds=['new +a.xml del']
