property='C25'
needs='two threads that classify references at the same time'
breaks='The position in the table of hierarchical reference types is static, so a search of another thread makes this one miss the type.'
edits=[('src/InternalRefService.c','''                       const NL_Reference *ref) {
    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {''','''                       const NL_Reference *ref) {
    static size_t i;
    for (i = 0; i < service->hierachicalRefsSize; i++) {''')]

threads=True
F='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:%s</Uri></NamespaceUris><Aliases><Alias Alias="A">%s</Alias></Aliases>%s</UANodeSet>'
def body(t, p): return ''.join('<UAObject NodeId="ns=1;%s%d" BrowseName="1:o"><References><Reference ReferenceType="A">ns=1;%s7</Reference><Reference ReferenceType="i=40">i=58</Reference></References></UAObject>' % (t, i, p) for i in range(1, 60))
xml={'a.xml': F%('a','i=47',body('i=','i=')), 'b.xml': F%('b','i=35',body('s=x','s=y'))}
main='''
#include <NodesetLoader/NodesetLoader.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
/* two threads, each with loaders of its own */
static unsigned short ns(void *c, const char *u) { return *(unsigned short *)c; }
struct Result { long nodes, refs, bad; unsigned short ns; const char *file; };
static struct Result *cur(void *c) { return c; }
static void each(void *c, NL_Node *n)
{
    struct Result *r = c;
    r->nodes++;
    if (n->id.namespaceIndex != r->ns) r->bad++;
    for (NL_Reference *f = n->hierachicalRefs; f; f = f->next) { r->refs++; if (f->target.namespaceIndex != r->ns) r->bad++; if (f->target.identifierType != n->id.identifierType) r->bad++; }
}
static void *work(void *v)
{
    struct Result *r = v;
    for (int i = 0; i < 60; i++)
    {
        NodesetLoader *l = NodesetLoader_new(NULL, NULL);
        NL_FileContext f = {0}; f.addNamespace = ns; f.userContext = &r->ns; f.file = r->file;
        if (!NodesetLoader_importFile(l, &f)) r->bad++;
        if (!NodesetLoader_sort(l)) r->bad++;
        NodesetLoader_forEachNode(l, NODECLASS_OBJECT, r, each);
        NodesetLoader_delete(l);
    }
    return NULL;
}
int main(void)
{
    pthread_t t[2]; struct Result r[2] = {{0, 0, 0, 3, "a.xml"}, {0, 0, 0, 5, "b.xml"}};
    for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, work, &r[i]);
    for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
    for (int i = 0; i < 2; i++) printf("%ld nodes %ld references %ld wrong\\n", r[i].nodes, r[i].refs, r[i].bad);
    return 0;
}
'''
cmds=['run']
