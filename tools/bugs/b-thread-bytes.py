property='B13'
needs='two threads that load values, one between decoding a ByteString and storing its length while the other decodes one'
breaks='The length of a decoded ByteString is kept in a static variable that a load in another thread changes.'
edits=[('backends/open62541/src/Value.c','''    int len = 0;
    unsigned char *val = NULL;

    const char *text = getPrimitive(value);''','''    static int len;
    len = 0;
    unsigned char *val = NULL;

    const char *text = getPrimitive(value);''')]

kit='back'
threads=True
U='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd"><NamespaceUris><Uri>%s</Uri></NamespaceUris>%s</UANodeSet>'
def var(i, t, v): return '<UAVariable NodeId="ns=1;i=%d" BrowseName="1:v%d" DataType="%s"><References><Reference ReferenceType="i=40">i=63</Reference><Reference ReferenceType="i=35" IsForward="false">i=85</Reference></References><Value>%s</Value></UAVariable>' % (i, i, t, v)
def doc(u, b, s, n): return U % (u, ''.join(var(i, 'i=15', '<uax:ByteString>%s</uax:ByteString>' % b) + var(i + 1000, 'i=12', '<uax:String>%s</uax:String>' % s) + var(i + 2000, 'i=6', '<uax:Int32>%s</uax:Int32>' % n) for i in range(1, 30)))
xml={'a.xml': doc('urn:a', 'QUJDREVGR0hJ', 'first', '-5'), 'b.xml': doc('urn:b', 'eHk=', 'the second one', '77777')}
main=r"""
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <pthread.h>
#include <cstdio>
#include <cstring>
#include <string>
#include "shim_server.h"
// two threads, each loads its file into servers of its own
extern "C" void shim_enter(void) {}
extern "C" void shim_leave(void) {}
struct Result { const char *file, *bytes, *str; int num; long bad, good; };
static void *work(void *v)
{
    Result *r = (Result *)v;
    for (int k = 0; k < 8; k++)
    {
        UA_Server *s = UA_Server_new();
        if (!NodesetLoader_loadFile(s, r->file, NULL)) r->bad++;
        for (int i = 1; i < 30; i++) for (int j = 0; j < 3; j++)
        {
            UA_Variant x; UA_Variant_init(&x);
            bool ok = UA_Server_readValue(s, UA_NODEID_NUMERIC(2, (UA_UInt32)(i + j * 1000)), &x) == UA_STATUSCODE_GOOD && x.data;
            if (ok && j == 2) ok = *(UA_Int32 *)x.data == r->num;
            else if (ok) { UA_String *t = (UA_String *)x.data; const char *w = j ? r->str : r->bytes; ok = t->length == strlen(w) && !memcmp(t->data, w, t->length); }
            if (ok) r->good++; else r->bad++;
            UA_Variant_clear(&x);
        }
        UA_Server_delete(s);
    }
    return NULL;
}
int main()
{
    Result r[2] = {{"a.xml", "ABCDEFGHI", "first", -5, 0, 0}, {"b.xml", "xy", "the second one", 77777, 0, 0}};
    pthread_t t[2];
    for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, work, &r[i]);
    for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
    for (int i = 0; i < 2; i++) printf("%ld as written, %ld not\n", r[i].good, r[i].bad);
    return 0;
}
"""
cmds=['run']
