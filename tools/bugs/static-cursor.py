property='C19'
needs='iterating the nodes of one loader inside of an iteration callback of another loader'
breaks='The position of the iteration is static, so an iteration of one loader inside of an iteration of another one makes that one skip or repeat nodes.'
edits=[('src/Nodeset.c','''    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)
    {
        fn(context, *node);
    }
    return c->size;''','''    static size_t i;
    for (i = 0; i < c->size; i++)
    {
        fn(context, c->nodes[i]);
    }
    return c->size;''')]
xml={'a.xml':'<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>%s</UANodeSet>'%''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:o"/>'%i for i in range(1,6)),
'b.xml':'<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>%s</UANodeSet>'%''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:o"/><UAMethod NodeId="ns=1;s=m%d" BrowseName="1:m"/>'%(i,i) for i in range(11,20))}
main='''
#include <NodesetLoader/NodesetLoader.h>
#include <stdio.h>
static unsigned short ns(void *c, const char *u) { return 3; }
static NodesetLoader *L[2];
static void inner(void *c, NL_Node *n) { ++*(int *)c; }
static int calls;
static void outer(void *c, NL_Node *n)
{
    int in = 0;
    if (++*(int *)c > 100) return;
    if (calls++ == 0) NodesetLoader_forEachNode(L[1], NODECLASS_METHOD, &in, inner);
    printf("node %d: inner %d\\n", (int)n->id.identifier.numeric, in);
}
int main(void)
{
    int out = 0;
    for (int i = 0; i < 2; i++) {
        NL_FileContext f = {0}; f.addNamespace = ns; f.file = i ? "b.xml" : "a.xml";
        L[i] = NodesetLoader_new(NULL, NULL);
        printf("import %d\\n", NodesetLoader_importFile(L[i], &f)); printf("sort %d\\n", NodesetLoader_sort(L[i]));
    }
    size_t r = NodesetLoader_forEachNode(L[0], NODECLASS_OBJECT, &out, outer);
    printf("outer %d %d\\n", out, (int)r);
    NodesetLoader_delete(L[0]); NodesetLoader_delete(L[1]);
    return 0;
}
'''
cmds=['run']
