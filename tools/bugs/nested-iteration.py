property='C02'
needs='a callback of forEachNode that iterates the nodes of the same class again'
breaks='The position of the iteration is kept in the container, so an iteration inside of a callback ends the outer one early.'
edits=[('src/Nodeset.c','''    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)
    {
        fn(context, *node);
    }
    return c->size;''','''    for (c->position = 0; c->position < c->size; c->position++)
    {
        fn(context, c->nodes[c->position]);
    }
    return c->size;'''),('src/nodes/NodeContainer.h','    size_t size;','    size_t size;\n    size_t position;')]
xml={'a.xml':'<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>%s</UANodeSet>'%''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:o"/>'%i for i in range(1,6))}
main='''
#include <NodesetLoader/NodesetLoader.h>
#include <stdio.h>
static unsigned short ns(void *c, const char *u) { return 3; }
static int depth = 0; static NodesetLoader *L;
static void inner(void *c, NL_Node *n) { ++*(int *)c; }
static void outer(void *c, NL_Node *n)
{
    int in = 0; ++*(int *)c;
    size_t r = NodesetLoader_forEachNode(L, NODECLASS_OBJECT, &in, inner);
    printf("node %d: inner %d %d\\n", (int)n->id.identifier.numeric, in, (int)r);
}
int main(void)
{
    int out = 0;
    NL_FileContext f = {0}; f.addNamespace = ns; f.file = "a.xml";
    L = NodesetLoader_new(NULL, NULL);
    printf("import %d\\n", NodesetLoader_importFile(L, &f)); printf("sort %d\\n", NodesetLoader_sort(L));
    size_t r = NodesetLoader_forEachNode(L, NODECLASS_OBJECT, &out, outer);
    printf("outer %d %d\\n", out, (int)r);
    NodesetLoader_delete(L);
    return 0;
}
'''
cmds=['run']
