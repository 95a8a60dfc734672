property='C06'
needs='more than 900 aliases in one file'
breaks='The alias list grows a second time only: the 901st alias is written behind the end of the list.'
edits=[('src/AliasList.c','''#define MAX_ALIAS 300
''','''#define MAX_ALIAS 600
'''),('src/AliasList.c','''        Alias *data = (Alias *)realloc(list->data, (list->capacity + MAX_ALIAS) *
                                                       sizeof(Alias));
        if(!data)
        {
            return NULL;
        }
        list->data = data;
        list->capacity += MAX_ALIAS;''','''        // most nodesets need one step only, so take a bigger one
        Alias *data = (Alias *)realloc(list->data, 3 * MAX_ALIAS * sizeof(Alias));
        if(!data)
        {
            return NULL;
        }
        list->data = data;
        list->capacity += 2 * MAX_ALIAS;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={}
cmds=['new +a.xml sort dump del']
sanitize=True
gen='''
a = "".join('<Alias Alias="A%d">i=%d</Alias>' % (i, i + 1) for i in range(4000))
v = "".join('<UAVariable NodeId="ns=1;i=%d" BrowseName="1:v" DataType="A%d"/>' % (i + 1, i) for i in range(0, 4000, 97))
open("a.xml", "w").write('<UANodeSet><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris><Aliases>' + a + '</Aliases>' + v + '</UANodeSet>')
'''
