// Small driver: srv STEP...   loads files into a stand-in server and prints what it holds.
//   ns:URI     register a namespace       +file.xml   load (result printed)     ~ext   use extension callbacks from now on
//   dump       print all nodes that the loads added, with references and values  types  print the registered data types
//   del        delete the server, clean up types                                live   print number of live heap blocks
//   S<n>       switch to server n
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include "shim_server.h"
extern "C" { extern long liveBlocks; extern int heapCounted; }
static int own = 0;
static bool counting = false;
extern "C" void shim_enter(void) { own++; heapCounted = 0; }
extern "C" void shim_leave(void) { own--; heapCounted = counting && !own; }
struct Lib { Lib() { counting = true; heapCounted = 1; } ~Lib() { counting = false; heapCounted = 0; } };
static std::string fmt(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string S(const UA_String &s) { return "\"" + std::string((const char *)s.data, s.length) + "\""; }
static std::string L(const UA_LocalizedText &t) { return S(t.locale) + "/" + S(t.text); }
static std::string nid(const UA_NodeId *id) { return shimId(id); }
static std::string num(double d) { return fmt("%.17g", d); }
static std::string hex(const std::string &s) { std::string r; for(unsigned char c : s) r += fmt("%02x", c); return r; }
static std::string dimsOf(size_t n, const UA_UInt32 *d) { std::string r; for(size_t i = 0; i < n; i++) r += (i ? "," : "") + std::to_string(d[i]); return r; }
std::string dumpVariant(const UA_Variant &v);
std::string dumpData(const void *p, const UA_DataType *t, int depth = 0);
std::string dumpData(const void *p, const UA_DataType *t, int depth) {
    if(depth > 100) return "too deep";
    switch(t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: { unsigned char c = *(const unsigned char *)p; return c == 0 ? "false" : c == 1 ? "true" : "bad bool"; }
    case UA_DATATYPEKIND_SBYTE: return std::to_string(*(const UA_SByte *)p);
    case UA_DATATYPEKIND_BYTE: return std::to_string(*(const UA_Byte *)p);
    case UA_DATATYPEKIND_INT16: return std::to_string(*(const UA_Int16 *)p);
    case UA_DATATYPEKIND_UINT16: return std::to_string(*(const UA_UInt16 *)p);
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: return std::to_string(*(const UA_Int32 *)p);
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: return std::to_string(*(const UA_UInt32 *)p);
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: return std::to_string(*(const UA_Int64 *)p);
    case UA_DATATYPEKIND_UINT64: return std::to_string(*(const UA_UInt64 *)p);
    case UA_DATATYPEKIND_FLOAT: return num(*(const UA_Float *)p);
    case UA_DATATYPEKIND_DOUBLE: return num(*(const UA_Double *)p);
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_XMLELEMENT: return S(*(const UA_String *)p);
    case UA_DATATYPEKIND_BYTESTRING: { auto s = (const UA_ByteString *)p; return "x" + hex(std::string((const char *)s->data, s->length)); }
    case UA_DATATYPEKIND_GUID: { auto g = (const UA_Guid *)p; std::string r = fmt("%08x%04x%04x", g->data1, g->data2, g->data3); return r + hex(std::string((const char *)g->data4, 8)); }
    case UA_DATATYPEKIND_NODEID: return nid((const UA_NodeId *)p);
    case UA_DATATYPEKIND_EXPANDEDNODEID: { auto e = (const UA_ExpandedNodeId *)p; return nid(&e->nodeId) + "|" + S(e->namespaceUri) + "|" + std::to_string(e->serverIndex); }
    case UA_DATATYPEKIND_QUALIFIEDNAME: { auto q = (const UA_QualifiedName *)p; return std::to_string(q->namespaceIndex) + ":" + S(q->name); }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: return L(*(const UA_LocalizedText *)p);
    case UA_DATATYPEKIND_VARIANT: return "(" + dumpVariant(*(const UA_Variant *)p) + ")";
    case UA_DATATYPEKIND_EXTENSIONOBJECT: {
        auto e = (const UA_ExtensionObject *)p;
        if(e->encoding == UA_EXTENSIONOBJECT_ENCODED_NOBODY) return "EO none";
        if(e->encoding >= UA_EXTENSIONOBJECT_DECODED) return "EO " + nid(&e->content.decoded.type->typeId) + " " + dumpData(e->content.decoded.data, e->content.decoded.type, depth + 1);
        return "EO encoded";
    }
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        std::string r = "{";
        uintptr_t a = (uintptr_t)p;
        for(size_t i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember &m = t->members[i];
            a += m.padding;
            r += (i ? "," : "") + std::string(m.memberName ? m.memberName : "~") + "=";
            if(m.isArray) {
                size_t n = *(size_t *)a; a += sizeof(size_t);
                const char *d = *(const char **)a; a += sizeof(void *);
                if(n == 0) r += "[]";
                else { r += "["; for(size_t k = 0; k < n; k++) r += (k ? ";" : "") + dumpData(d + k * m.memberType->memSize, m.memberType, depth + 1); r += "]"; }
            } else if(m.isOptional) {
                const void *d = *(const void **)a; a += sizeof(void *);
                r += d ? "?" + dumpData(d, m.memberType, depth + 1) : "~";
            } else { r += dumpData((const void *)a, m.memberType, depth + 1); a += m.memberType->memSize; }
        }
        return r + "}";
    }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sw = *(const UA_UInt32 *)p;
        if(sw == 0) return "<none>";
        if(sw > t->membersSize) return "<bad switch " + std::to_string(sw) + ">";
        const UA_DataTypeMember &m = t->members[sw - 1];
        uintptr_t a = (uintptr_t)p + m.padding;
        std::string r = "<" + std::string(m.memberName ? m.memberName : "~") + "=";
        if(m.isArray) {
            size_t n = *(size_t *)a;
            const char *d = *(const char **)(a + sizeof(size_t));
            r += "["; for(size_t k = 0; k < n; k++) r += (k ? ";" : "") + dumpData(d + k * m.memberType->memSize, m.memberType, depth + 1); r += "]";
        } else r += dumpData((const void *)a, m.memberType, depth + 1);
        return r + ">";
    }
    default: return fmt("kind %u", t->typeKind);
    }
}
std::string dumpVariant(const UA_Variant &v) {
    if(!v.type) return "none";
    std::string r = nid(&v.type->typeId);
    if(v.arrayLength == 0 && v.data > UA_EMPTY_ARRAY_SENTINEL) return r + " " + dumpData(v.data, v.type);
    if(v.arrayLength == 0) return "none";                 // an empty array and no value are not distinguished
    r += "[" + std::to_string(v.arrayLength) + "] ";
    for(size_t i = 0; i < v.arrayLength; i++) r += (i ? ";" : "") + dumpData((const char *)v.data + i * v.type->memSize, v.type);
    if(v.arrayDimensionsSize) r += " dims " + dimsOf(v.arrayDimensionsSize, v.arrayDimensions);
    return r;
}


static void *extNew() { shim_enter(); void *r = new std::string("E"); shim_leave(); return r; }
static void extStart(void *d, const char *n, int k, const char **a) { shim_enter(); std::string &s = *(std::string *)d; s += std::string("<") + n; for(int i = 0; i < k; i++) { s += std::string(" ") + a[5 * i] + "="; s.append(a[5 * i + 3], a[5 * i + 4] - a[5 * i + 3]); } s += ">"; shim_leave(); }
static void extEnd(void *d, const char *n, const char *v) { shim_enter(); *(std::string *)d += std::string(v ? v : "") + "</" + n + ">"; shim_leave(); }
static void extFinish(void *d) { shim_enter(); *(std::string *)d += "F"; shim_leave(); }
static std::string attrs(const ShimNode *n) {
    auto *c = (const UA_ObjectAttributes *)n->attr;
    std::string a = " bn=" + std::to_string(n->bn.namespaceIndex) + ":" + S(n->bn.name) + " dn=" + L(c->displayName) + " desc=" + L(c->description);
    switch(n->cls) {
    case UA_NODECLASS_OBJECT: return a + fmt(" en=%u", c->eventNotifier);
    case UA_NODECLASS_VARIABLE: { auto v = (const UA_VariableAttributes *)n->attr; return a + " dt=" + nid(&v->dataType) + fmt(" vr=%d al=%u ual=%u hist=%d msi=", v->valueRank, v->accessLevel, v->userAccessLevel, v->historizing) + num(v->minimumSamplingInterval) + " dims=" + dimsOf(v->arrayDimensionsSize, v->arrayDimensions) + "\n  value " + dumpVariant(v->value); }
    case UA_NODECLASS_METHOD: { auto v = (const UA_MethodAttributes *)n->attr; return a + fmt(" ex=%d uex=%d", v->executable, v->userExecutable); }
    case UA_NODECLASS_OBJECTTYPE: return a + fmt(" ia=%d", ((const UA_ObjectTypeAttributes *)n->attr)->isAbstract);
    case UA_NODECLASS_DATATYPE: return a + fmt(" ia=%d", ((const UA_DataTypeAttributes *)n->attr)->isAbstract);
    case UA_NODECLASS_VARIABLETYPE: { auto v = (const UA_VariableTypeAttributes *)n->attr; return a + " dt=" + nid(&v->dataType) + fmt(" vr=%d ia=%d dims=", v->valueRank, v->isAbstract) + dimsOf(v->arrayDimensionsSize, v->arrayDimensions); }
    case UA_NODECLASS_REFERENCETYPE: { auto v = (const UA_ReferenceTypeAttributes *)n->attr; return a + fmt(" ia=%d sym=%d inv=", v->isAbstract, v->symmetric) + L(v->inverseName); }
    case UA_NODECLASS_VIEW: { auto v = (const UA_ViewAttributes *)n->attr; return a + fmt(" cnl=%d en=%u", v->containsNoLoops, v->eventNotifier); }
    default: return a;
    }
}
int main(int argc, char **argv) {
    UA_Server *s[4] = {};
    int cur = 0; bool ext = false;
    NodesetLoader_ExtensionInterface ei = {nullptr, extNew, extStart, extEnd, extFinish};
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a[0] == 'S') { cur = a[1] - '0'; continue; }
        if(!s[cur]) s[cur] = UA_Server_new();
        UA_Server *v = s[cur];
        if(a.compare(0, 3, "ns:") == 0) UA_Server_addNamespace(v, a.c_str() + 3);
        else if(a == "~ext") ext = true;
        else if(a[0] == '+') {
            size_t logged = v->log.size();
            bool r; { Lib l; r = NodesetLoader_loadFile(v, a.c_str() + 1, ext ? &ei : nullptr); }
            int e = 0; for(size_t k = logged; k < v->log.size(); k++) e += v->log[k].first >= UA_LOGLEVEL_ERROR;
            printf("%s -> %d, errors %s\n", a.c_str(), r, e ? "logged" : "none");
        }
        else if(a == "dump") {
            for(size_t k = 0; k < v->namespaces.size(); k++) printf("namespace %zu %s\n", k, v->namespaces[k].c_str());
            for(auto &n : v->nodes) {
                bool shown = !n.second->initial;
                if(shown) printf("%s class %d%s\n", n.first.c_str(), (int)n.second->cls, attrs(n.second).c_str());
                if(shown && n.second->ctx) printf("  context %s\n", ((std::string *)n.second->ctx)->c_str());
                for(auto &r : n.second->out) { auto t = v->nodes.find(r.second); if(shown || (t != v->nodes.end() && !t->second->initial)) printf("  %s -%s-> %s\n", n.first.c_str(), r.first.c_str(), r.second.c_str()); }
            }
        }
        else if(a == "types") {
            std::map<std::string, std::string> out;
            for(const UA_DataTypeArray *t = UA_Server_getConfig(v)->customDataTypes; t; t = t->next) for(size_t k = 0; k < t->typesSize; k++) {
                const UA_DataType &d = t->types[k];
                std::string x = std::string(d.typeName ? d.typeName : "~") + " enc " + nid(&d.binaryEncodingId) + fmt(" size %u kind %u pf %u", d.memSize, d.typeKind, d.pointerFree);
                for(size_t m = 0; m < d.membersSize; m++) x += "\n  " + std::string(d.members[m].memberName ? d.members[m].memberName : "~") + " " + nid(&d.members[m].memberType->typeId) + fmt(" pad %u arr %u opt %u", d.members[m].padding, d.members[m].isArray, d.members[m].isOptional);
                out[nid(&d.typeId)] += x + "\n";
            }
            for(auto &k : out) printf("type %s %s", k.first.c_str(), k.second.c_str());
        }
        else if(a == "del") { const UA_DataTypeArray *t = v->config.customDataTypes; UA_Server_delete(v); s[cur] = nullptr; Lib l; NodesetLoader_cleanupCustomDataTypes(t); }
        else if(a == "live") { static long before = -1; if(before < 0) printf("live blocks counted\n"); else printf("more live blocks %ld\n", liveBlocks - before); before = liveBlocks; }
        fflush(stdout);
    }
    return 0;
}
