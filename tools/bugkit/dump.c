/* Small driver: dump STEP...   prints what the loader delivers.
 *   +file.xml   import (import result printed)      ~ext   use extension callbacks from now on
 *   sort        sort                                  dump   print all nodes
 *   new / del   new loader / delete loader            intlog  built-in logger for the next new
 *   L<n>        switch to loader n                    live   print number of live heap blocks
 *   bidi        print bidirectional references        order  print ids only, in delivery order */
#include <NodesetLoader/NodesetLoader.h>
#include <stdarg.h>

extern long liveBlocks;
extern int heapCounted;
extern void freeText(void *);
static NodesetLoader *L[4];
static int cur = 0, useExt = 0, intLog = 0;
static char uris[64][200]; static int nuris = 0, nsBase = 3;

static void logFn(void *ctx, enum NodesetLoader_LogLevel lvl, const char *msg, ...)
{
    va_list a; va_start(a, msg);
    printf("log[%s] %d: ", (char *)ctx, (int)lvl); vprintf(msg, a); printf("\n");
    va_end(a);
}
static NodesetLoader_Logger loggers[4] = {{"A", logFn}, {"B", logFn}, {"C", logFn}, {"D", logFn}};

static unsigned short addNs(void *ctx, const char *uri)
{
    int i = 0;
    printf("ns %s %s\n", (char *)ctx, uri);
    for (; i < nuris; i++) if (!strcmp(uris[i], uri)) break;
    if (i == nuris) { strncpy(uris[nuris++], uri, 199); }
    return (unsigned short)(i + nsBase);
}
static FILE *out; /* text of the current node */
#define printf(...) fprintf(out, __VA_ARGS__)
static void id(const char *pre, const UA_NodeId *n)
{
    UA_String s = {0}; UA_NodeId_print(n, &s);
    printf(" %s=%.*s", pre, (int)s.length, (char *)s.data); UA_String_clear(&s);
}
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void refs(const char *l, const NL_Reference *r)
{
    char **lines = NULL; size_t n = 0, sz; FILE *save = out;
    for (; r; r = r->next) {
        lines = (char **)realloc(lines, (n + 1) * sizeof(char *));
        out = open_memstream(&lines[n++], &sz);
        printf("  %s %s", l, r->isForward ? "fwd" : "inv"); id("type", &r->refType); id("to", &r->target); printf("\n");
        fclose(out);
    }
    out = save;
    if (n) qsort(lines, n, sizeof(char *), cmp);
    for (size_t i = 0; i < n; i++) { printf("%s", lines[i]); freeText(lines[i]); }
    free(lines);
}
static void str(const char *n, const char *s) { printf("  %s=%s\n", n, s ? s : "(null)"); }
static void data(const NL_Data *d, int ind)
{
    if (!d) { printf("%*s(no data)\n", ind, ""); return; }
    if (d->type == DATATYPE_PRIMITIVE) { printf("%*s%s: %s\n", ind, "", d->name, d->val.primitiveData.value ? d->val.primitiveData.value : "(null)"); return; }
    printf("%*s%s {%d}\n", ind, "", d->name, (int)d->val.complexData.membersSize);
    for (size_t i = 0; i < d->val.complexData.membersSize; i++) data(d->val.complexData.members[i], ind + 2);
}
static void node(void *ctx, NL_Node *n)
{
    printf("%s", NL_NODECLASS_NAME[n->nodeClass]); id("id", &n->id);
    if (ctx) { printf("\n"); return; }
    printf(" bn=%d:%s\n", n->browseName.nsIdx, n->browseName.name ? n->browseName.name : "(null)");
    printf("  dn=%s|%s de=%s|%s\n", n->displayName.locale ? n->displayName.locale : "-", n->displayName.text ? n->displayName.text : "-",
           n->description.locale ? n->description.locale : "-", n->description.text ? n->description.text : "-");
    refs("H", n->hierachicalRefs); refs("N", n->nonHierachicalRefs); refs("U", n->unknownRefs);
    if (NodesetLoader_isInstanceNode(n)) { id("parent", &((NL_InstanceNode *)n)->parentNodeId); printf("\n"); }
    switch (n->nodeClass) {
    case NODECLASS_OBJECT: str("ev", ((NL_ObjectNode *)n)->eventNotifier); refs("T", ((NL_ObjectNode *)n)->refToTypeDef); break;
    case NODECLASS_OBJECTTYPE: str("abs", ((NL_ObjectTypeNode *)n)->isAbstract); break;
    case NODECLASS_VARIABLE: { NL_VariableNode *v = (NL_VariableNode *)n;
        id("dt", &v->datatype); str("rank", v->valueRank); str("dim", v->arrayDimensions); str("acc", v->accessLevel); str("uacc", v->userAccessLevel);
        str("hist", v->historizing); str("msi", v->minimumSamplingInterval); refs("T", v->refToTypeDef);
        if (v->value) { printf("  value arr=%d ext=%d type=%s\n", v->value->isArray, v->value->isExtensionObject, v->value->type ? v->value->type : "-"); data(v->value->data, 4); } break; }
    case NODECLASS_VARIABLETYPE: { NL_VariableTypeNode *v = (NL_VariableTypeNode *)n;
        id("dt", &v->datatype); str("rank", v->valueRank); str("dim", v->arrayDimensions); str("abs", v->isAbstract); break; }
    case NODECLASS_DATATYPE: { NL_DataTypeNode *d = (NL_DataTypeNode *)n; str("abs", d->isAbstract);
        if (d->definition) { printf("  def enum=%d union=%d optset=%d\n", d->definition->isEnum, d->definition->isUnion, d->definition->isOptionSet);
            for (size_t i = 0; i < d->definition->fieldCnt; i++) { NL_DataTypeDefinitionField *f = &d->definition->fields[i];
                printf("   %s rank=%d val=%d opt=%d", f->name, f->valueRank, f->value, f->isOptional); id("dt", &f->dataType); printf("\n"); } } break; }
    case NODECLASS_METHOD: str("exec", ((NL_MethodNode *)n)->executable); str("uexec", ((NL_MethodNode *)n)->userExecutable); break;
    case NODECLASS_REFERENCETYPE: str("sym", ((NL_ReferenceTypeNode *)n)->symmetric); str("inl", ((NL_ReferenceTypeNode *)n)->inverseName.locale); str("int", ((NL_ReferenceTypeNode *)n)->inverseName.text); break;
    case NODECLASS_VIEW: str("cnl", ((NL_ViewNode *)n)->containsNoLoops); str("ev", ((NL_ViewNode *)n)->eventNotifier); break;
    }
    if (n->extension) printf("  ext=%ld\n", (long)(size_t)n->extension);
}
static char **texts; static size_t ntexts;
static void collect(void *ctx, NL_Node *n)
{
    size_t sz;
    texts = (char **)realloc(texts, (ntexts + 1) * sizeof(char *));
    out = open_memstream(&texts[ntexts++], &sz);
    node(NULL, n);
    fclose(out); out = stdout;
}
static long extN = 0;
static void *eNew(void) { extN++; printf("ext new %ld\n", extN); return (void *)(size_t)extN; }
static void eStart(void *d, const char *n, int na, const char **a)
{
    printf("ext %ld start %s", (long)(size_t)d, n);
    for (int i = 0; i < na; i++) printf(" %s=%.*s", a[i * 5], (int)(a[i * 5 + 4] - a[i * 5 + 3]), a[i * 5 + 3]);
    printf("\n");
}
static void eEnd(void *d, const char *n, const char *c) { printf("ext %ld end %s %s\n", (long)(size_t)d, n, c ? c : "-"); }
static void eFinish(void *d) { printf("ext %ld finish\n", (long)(size_t)d); }

int main(int argc, char **argv)
{
    NodesetLoader_ExtensionInterface ext = {.newExtension = eNew, .start = eStart, .end = eEnd, .finish = eFinish};
    static char *names[4] = {"A", "B", "C", "D"};
    out = stdout;
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    for (int i = 1; i < argc; i++) {
        char *s = argv[i];
        if (!strcmp(s, "new")) L[cur] = NodesetLoader_new(intLog ? NULL : &loggers[cur], NULL);
        else if (!strcmp(s, "intlog")) intLog = 1;
        else if (!strcmp(s, "~ext")) useExt = 1;
        else if (!strncmp(s, "base", 4)) nsBase = atoi(s + 4); /* first namespace index of the server */
        else if (s[0] == 'L' && s[1]) cur = atoi(s + 1);
        else if (!strcmp(s, "del")) { NodesetLoader_delete(L[cur]); L[cur] = NULL; }
        else if (!strcmp(s, "sort")) printf("sort %d\n", NodesetLoader_sort(L[cur]));
        else if (!strcmp(s, "live")) { if (heapCounted) printf("live %ld\n", liveBlocks); }
        else if (!strcmp(s, "bidi")) { for (const NL_BiDirectionalReference *b = NodesetLoader_getBidirectionalRefs(L[cur]); b; b = b->next) { printf("bidi"); id("src", &b->source); id("dst", &b->target); id("type", &b->refType); printf("\n"); } }
        else if (!strcmp(s, "order")) for (int c = 0; c < NL_NODECLASS_COUNT; c++)
            printf("count %d\n", (int)NodesetLoader_forEachNode(L[cur], (NL_NodeClass)c, s, node));
        else if (!strcmp(s, "dump")) for (int c = 0; c < NL_NODECLASS_COUNT; c++) {
            /* the nodes of a class in sorted order */
            size_t n = NodesetLoader_forEachNode(L[cur], (NL_NodeClass)c, NULL, collect);
            printf("count %d\n", (int)n);
            if (ntexts) qsort(texts, ntexts, sizeof(char *), cmp);
            for (n = 0; n < ntexts; n++) { printf("%s", texts[n]); freeText(texts[n]); }
            free(texts); texts = NULL; ntexts = 0;
        }
        else if (s[0] == '+') { NL_FileContext fc = {names[cur], s + 1, addNs, useExt ? &ext : NULL}; printf("import %d\n", NodesetLoader_importFile(L[cur], &fc)); }
    }
    return 0;
}
