// Stand-in for the open62541 1.4 server: the node store, reference checks and status codes of the
// management API the backend uses (AddNode_raw, AddNode_addRefs, checkParentReference,
// Operation_addReference, browse), without sessions, instantiation of children or value type checks
// (the backend adds instances with addNode_begin only, which performs neither).
#include "shim_server.h"
#include <cstdarg>

namespace {
struct Own { Own() { if(shim_enter) shim_enter(); } ~Own() { if(shim_leave) shim_leave(); } };
std::string hexs(const UA_Byte *p, size_t n) { std::string r; char b[4]; for(size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", p[i]); r += b; } return r; }
void logCb(void *ctx, UA_LogLevel lvl, UA_LogCategory, const char *m, va_list a) {
    Own o;
    va_list b; va_copy(b, a);
    int n = vsnprintf(nullptr, 0, m, b); va_end(b);
    std::string s(n > 0 ? n + 1 : 1, 0);
    vsnprintf(&s[0], s.size(), m, a);
    s.pop_back();
    ((UA_Server *)ctx)->log.push_back({(int)lvl, s});
}
const char *N0(unsigned i) { static thread_local std::string b[8]; static thread_local int k; k = (k + 1) % 8; b[k] = "0:i=" + std::to_string(i); return b[k].c_str(); }
bool isTypeClass(UA_NodeClass c) { return c == UA_NODECLASS_VARIABLETYPE || c == UA_NODECLASS_OBJECTTYPE || c == UA_NODECLASS_REFERENCETYPE || c == UA_NODECLASS_DATATYPE; }
ShimNode *get(UA_Server *s, const std::string &id) { auto it = s->nodes.find(id); return it == s->nodes.end() ? nullptr : it->second; }
ShimNode *get(UA_Server *s, const UA_NodeId &id) { return get(s, shimId(&id)); }
void freeNode(ShimNode *n) {
    UA_NodeId_clear(&n->id); UA_QualifiedName_clear(&n->bn);
    if(n->attr) UA_delete(n->attr, n->attrType);
    delete n;
}
bool inTree(UA_Server *s, const std::string &leaf, const std::string &root) {
    std::set<std::string> seen; std::vector<std::string> st{leaf};
    while(!st.empty()) {
        std::string x = st.back(); st.pop_back();
        if(x == root) return true;
        if(!seen.insert(x).second) continue;
        if(ShimNode *n = get(s, x)) for(auto &r : n->in) if(r.first == "0:i=45") st.push_back(r.second);
    }
    return false;
}
bool addRef(UA_Server *s, const std::string &a, const std::string &type, const std::string &b) {
    ShimNode *x = get(s, a), *y = get(s, b);
    if(!x || !y) return false;
    bool n = x->out.insert({type, b}).second;
    y->in.insert({type, a});
    return n;
}
bool isAbstract(ShimNode *n) {
    switch(n->cls) {
    case UA_NODECLASS_REFERENCETYPE: return ((UA_ReferenceTypeAttributes *)n->attr)->isAbstract;
    case UA_NODECLASS_OBJECTTYPE: return ((UA_ObjectTypeAttributes *)n->attr)->isAbstract;
    case UA_NODECLASS_VARIABLETYPE: return ((UA_VariableTypeAttributes *)n->attr)->isAbstract;
    case UA_NODECLASS_DATATYPE: return ((UA_DataTypeAttributes *)n->attr)->isAbstract;
    default: return false;
    }
}
const UA_DataType *attrTypeOf(UA_NodeClass c) {
    switch(c) {
    case UA_NODECLASS_OBJECT: return &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES];
    case UA_NODECLASS_VARIABLE: return &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES];
    case UA_NODECLASS_METHOD: return &UA_TYPES[UA_TYPES_METHODATTRIBUTES];
    case UA_NODECLASS_OBJECTTYPE: return &UA_TYPES[UA_TYPES_OBJECTTYPEATTRIBUTES];
    case UA_NODECLASS_VARIABLETYPE: return &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES];
    case UA_NODECLASS_REFERENCETYPE: return &UA_TYPES[UA_TYPES_REFERENCETYPEATTRIBUTES];
    case UA_NODECLASS_DATATYPE: return &UA_TYPES[UA_TYPES_DATATYPEATTRIBUTES];
    case UA_NODECLASS_VIEW: return &UA_TYPES[UA_TYPES_VIEWATTRIBUTES];
    default: return nullptr;
    }
}
// --- namespace 0, the part the tests and typical nodesets refer to ---
struct Init { unsigned id; UA_NodeClass c; const char *name; unsigned parent; unsigned ref; bool abs; unsigned td; };
const Init NS0[] = {
    {84, UA_NODECLASS_OBJECT, "Root", 0, 0, 0, 61}, {85, UA_NODECLASS_OBJECT, "Objects", 84, 35, 0, 61}, {86, UA_NODECLASS_OBJECT, "Types", 84, 35, 0, 61},
    {87, UA_NODECLASS_OBJECT, "Views", 84, 35, 0, 61}, {88, UA_NODECLASS_OBJECT, "ObjectTypes", 86, 35, 0, 61}, {89, UA_NODECLASS_OBJECT, "VariableTypes", 86, 35, 0, 61},
    {90, UA_NODECLASS_OBJECT, "DataTypes", 86, 35, 0, 61}, {91, UA_NODECLASS_OBJECT, "ReferenceTypes", 86, 35, 0, 61},
    {31, UA_NODECLASS_REFERENCETYPE, "References", 91, 35, 1, 0}, {32, UA_NODECLASS_REFERENCETYPE, "NonHierarchicalReferences", 31, 45, 1, 0},
    {33, UA_NODECLASS_REFERENCETYPE, "HierarchicalReferences", 31, 45, 1, 0}, {34, UA_NODECLASS_REFERENCETYPE, "HasChild", 33, 45, 1, 0},
    {35, UA_NODECLASS_REFERENCETYPE, "Organizes", 33, 45, 0, 0}, {36, UA_NODECLASS_REFERENCETYPE, "HasEventSource", 33, 45, 0, 0},
    {37, UA_NODECLASS_REFERENCETYPE, "HasModellingRule", 32, 45, 0, 0}, {38, UA_NODECLASS_REFERENCETYPE, "HasEncoding", 32, 45, 0, 0},
    {39, UA_NODECLASS_REFERENCETYPE, "HasDescription", 32, 45, 0, 0}, {40, UA_NODECLASS_REFERENCETYPE, "HasTypeDefinition", 32, 45, 0, 0},
    {41, UA_NODECLASS_REFERENCETYPE, "GeneratesEvent", 32, 45, 0, 0}, {3065, UA_NODECLASS_REFERENCETYPE, "AlwaysGeneratesEvent", 41, 45, 0, 0},
    {44, UA_NODECLASS_REFERENCETYPE, "Aggregates", 34, 45, 1, 0}, {45, UA_NODECLASS_REFERENCETYPE, "HasSubtype", 34, 45, 0, 0},
    {46, UA_NODECLASS_REFERENCETYPE, "HasProperty", 44, 45, 0, 0}, {47, UA_NODECLASS_REFERENCETYPE, "HasComponent", 44, 45, 0, 0},
    {48, UA_NODECLASS_REFERENCETYPE, "HasNotifier", 36, 45, 0, 0}, {49, UA_NODECLASS_REFERENCETYPE, "HasOrderedComponent", 47, 45, 0, 0},
    {56, UA_NODECLASS_REFERENCETYPE, "HasHistoricalConfiguration", 44, 45, 0, 0}, {17603, UA_NODECLASS_REFERENCETYPE, "HasInterface", 32, 45, 0, 0},
    {17604, UA_NODECLASS_REFERENCETYPE, "HasAddIn", 47, 45, 0, 0},
    {58, UA_NODECLASS_OBJECTTYPE, "BaseObjectType", 88, 35, 0, 0}, {61, UA_NODECLASS_OBJECTTYPE, "FolderType", 58, 45, 0, 0},
    {76, UA_NODECLASS_OBJECTTYPE, "DataTypeEncodingType", 58, 45, 0, 0}, {77, UA_NODECLASS_OBJECTTYPE, "ModellingRuleType", 58, 45, 0, 0},
    {2004, UA_NODECLASS_OBJECTTYPE, "ServerType", 58, 45, 0, 0}, {2041, UA_NODECLASS_OBJECTTYPE, "BaseEventType", 58, 45, 0, 0},
    {62, UA_NODECLASS_VARIABLETYPE, "BaseVariableType", 89, 35, 1, 0}, {63, UA_NODECLASS_VARIABLETYPE, "BaseDataVariableType", 62, 45, 0, 0},
    {68, UA_NODECLASS_VARIABLETYPE, "PropertyType", 62, 45, 0, 0}, {2365, UA_NODECLASS_VARIABLETYPE, "DataItemType", 63, 45, 0, 0},
    {24, UA_NODECLASS_DATATYPE, "BaseDataType", 90, 35, 1, 0}, {1, UA_NODECLASS_DATATYPE, "Boolean", 24, 45, 0, 0},
    {26, UA_NODECLASS_DATATYPE, "Number", 24, 45, 1, 0}, {27, UA_NODECLASS_DATATYPE, "Integer", 26, 45, 1, 0}, {28, UA_NODECLASS_DATATYPE, "UInteger", 26, 45, 1, 0},
    {2, UA_NODECLASS_DATATYPE, "SByte", 27, 45, 0, 0}, {4, UA_NODECLASS_DATATYPE, "Int16", 27, 45, 0, 0}, {6, UA_NODECLASS_DATATYPE, "Int32", 27, 45, 0, 0},
    {8, UA_NODECLASS_DATATYPE, "Int64", 27, 45, 0, 0}, {3, UA_NODECLASS_DATATYPE, "Byte", 28, 45, 0, 0}, {5, UA_NODECLASS_DATATYPE, "UInt16", 28, 45, 0, 0},
    {7, UA_NODECLASS_DATATYPE, "UInt32", 28, 45, 0, 0}, {9, UA_NODECLASS_DATATYPE, "UInt64", 28, 45, 0, 0}, {10, UA_NODECLASS_DATATYPE, "Float", 26, 45, 0, 0},
    {11, UA_NODECLASS_DATATYPE, "Double", 26, 45, 0, 0}, {290, UA_NODECLASS_DATATYPE, "Duration", 11, 45, 0, 0}, {288, UA_NODECLASS_DATATYPE, "IntegerId", 7, 45, 0, 0},
    {289, UA_NODECLASS_DATATYPE, "Counter", 7, 45, 0, 0}, {12, UA_NODECLASS_DATATYPE, "String", 24, 45, 0, 0}, {295, UA_NODECLASS_DATATYPE, "LocaleId", 12, 45, 0, 0},
    {291, UA_NODECLASS_DATATYPE, "NumericRange", 12, 45, 0, 0}, {13, UA_NODECLASS_DATATYPE, "DateTime", 24, 45, 0, 0}, {294, UA_NODECLASS_DATATYPE, "UtcTime", 13, 45, 0, 0},
    {14, UA_NODECLASS_DATATYPE, "Guid", 24, 45, 0, 0}, {15, UA_NODECLASS_DATATYPE, "ByteString", 24, 45, 0, 0}, {30, UA_NODECLASS_DATATYPE, "Image", 15, 45, 1, 0},
    {16, UA_NODECLASS_DATATYPE, "XmlElement", 24, 45, 0, 0}, {17, UA_NODECLASS_DATATYPE, "NodeId", 24, 45, 0, 0}, {18, UA_NODECLASS_DATATYPE, "ExpandedNodeId", 24, 45, 0, 0},
    {19, UA_NODECLASS_DATATYPE, "StatusCode", 24, 45, 0, 0}, {20, UA_NODECLASS_DATATYPE, "QualifiedName", 24, 45, 0, 0}, {21, UA_NODECLASS_DATATYPE, "LocalizedText", 24, 45, 0, 0},
    {22, UA_NODECLASS_DATATYPE, "Structure", 24, 45, 1, 0}, {23, UA_NODECLASS_DATATYPE, "DataValue", 24, 45, 0, 0}, {25, UA_NODECLASS_DATATYPE, "DiagnosticInfo", 24, 45, 0, 0},
    {29, UA_NODECLASS_DATATYPE, "Enumeration", 24, 45, 1, 0}, {257, UA_NODECLASS_DATATYPE, "NodeClass", 29, 45, 0, 0}, {296, UA_NODECLASS_DATATYPE, "Argument", 22, 45, 0, 0},
    {884, UA_NODECLASS_DATATYPE, "Range", 22, 45, 0, 0}, {887, UA_NODECLASS_DATATYPE, "EUInformation", 22, 45, 0, 0}, {7594, UA_NODECLASS_DATATYPE, "EnumValueType", 22, 45, 0, 0},
    {12755, UA_NODECLASS_DATATYPE, "OptionSet", 22, 45, 1, 0}, {12756, UA_NODECLASS_DATATYPE, "Union", 22, 45, 1, 0},
    {78, UA_NODECLASS_OBJECT, "Mandatory", 0, 0, 0, 77}, {80, UA_NODECLASS_OBJECT, "Optional", 0, 0, 0, 77}, {2253, UA_NODECLASS_OBJECT, "Server", 85, 35, 0, 2004},
};
void initNs0(UA_Server *s) {
    for(auto &i : NS0) {
        ShimNode *n = new ShimNode();
        n->id = UA_NODEID_NUMERIC(0, i.id); n->cls = i.c; n->bn = UA_QUALIFIEDNAME_ALLOC(0, i.name);
        n->attrType = attrTypeOf(i.c); n->attr = UA_new(n->attrType); n->ctx = nullptr; n->initial = true;
        if(i.c == UA_NODECLASS_REFERENCETYPE) ((UA_ReferenceTypeAttributes *)n->attr)->isAbstract = i.abs;
        if(i.c == UA_NODECLASS_OBJECTTYPE) ((UA_ObjectTypeAttributes *)n->attr)->isAbstract = i.abs;
        if(i.c == UA_NODECLASS_VARIABLETYPE) ((UA_VariableTypeAttributes *)n->attr)->isAbstract = i.abs;
        if(i.c == UA_NODECLASS_DATATYPE) ((UA_DataTypeAttributes *)n->attr)->isAbstract = i.abs;
        s->nodes[shimId(&n->id)] = n;
    }
    for(auto &i : NS0) {
        if(i.parent) addRef(s, N0(i.parent), N0(i.ref), N0(i.id));
        if(i.td) addRef(s, N0(i.id), N0(40), N0(i.td));
    }
}
UA_StatusCode addImpl(UA_Server *s, UA_NodeClass cls, const UA_NodeId *req, const UA_NodeId *parent, const UA_NodeId *refType,
                      const UA_QualifiedName &bn, const UA_NodeId *typeDef, const void *attr, const UA_DataType *attrType, void *ctx, std::string *outId) {
    if(req->namespaceIndex >= s->namespaces.size()) return UA_STATUSCODE_BADNODEIDINVALID;
    if(!attr || attrType != attrTypeOf(cls)) return UA_STATUSCODE_BADNODECLASSINVALID;
    UA_NodeId id = *req;
    if(id.identifierType == UA_NODEIDTYPE_NUMERIC && id.identifier.numeric == 0) id.identifier.numeric = s->nextId++;
    std::string key = shimId(&id);
    if(get(s, key)) return UA_STATUSCODE_BADNODEIDEXISTS;
    // AddNode_addRefs
    UA_NodeId ref = *refType, td = *typeDef;
    if(isTypeClass(cls)) {
        if(UA_NodeId_isNull(&ref)) ref = UA_NODEID_NUMERIC(0, 45);
        ShimNode *p = get(s, *parent);
        if(p) td = p->cls == cls ? *parent : UA_NODEID_NULL;
    }
    if(UA_NodeId_equal(&id, parent)) return UA_STATUSCODE_BADINVALIDARGUMENT;
    bool noParent = UA_NodeId_isNull(parent);
    if(!((cls == UA_NODECLASS_OBJECT || cls == UA_NODECLASS_VARIABLE) && noParent && UA_NodeId_isNull(&ref))) {
        ShimNode *p = get(s, *parent);
        if(!p) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
        ShimNode *r = get(s, ref);
        if(!r || r->cls != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
        if(isAbstract(r)) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
        if(isTypeClass(cls)) {
            if(shimId(&ref) != "0:i=45") return UA_STATUSCODE_BADREFERENCENOTALLOWED;
            if(p->cls != cls) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
        } else if(!inTree(s, shimId(&ref), "0:i=33")) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    }
    if((cls == UA_NODECLASS_OBJECT || cls == UA_NODECLASS_VARIABLE) && UA_NodeId_isNull(&td)) td = UA_NODEID_NUMERIC(0, cls == UA_NODECLASS_OBJECT ? 58 : 63);
    if(!UA_NodeId_isNull(&td)) {
        ShimNode *t = get(s, td);
        if(!t) return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
        UA_NodeClass want = cls == UA_NODECLASS_OBJECT ? UA_NODECLASS_OBJECTTYPE : cls == UA_NODECLASS_VARIABLE ? UA_NODECLASS_VARIABLETYPE : cls;
        if(t->cls != want) return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
    }
    if(!noParent && UA_NodeId_isNull(&ref)) return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
    ShimNode *n = new ShimNode();
    memset(&n->id, 0, sizeof n->id); memset(&n->bn, 0, sizeof n->bn);
    UA_NodeId_copy(&id, &n->id); UA_QualifiedName_copy(&bn, &n->bn);
    n->cls = cls; n->attrType = attrType; n->ctx = ctx; n->initial = false;
    n->attr = UA_new(attrType);
    UA_copy(attr, n->attr, attrType);
    s->nodes[key] = n;
    if(!noParent) addRef(s, shimId(parent), shimId(&ref), key);
    if(cls == UA_NODECLASS_OBJECT || cls == UA_NODECLASS_VARIABLE) addRef(s, key, "0:i=40", shimId(&td));
    *outId = key;
    return UA_STATUSCODE_GOOD;
}
}  // namespace

std::string shimId(const UA_NodeId *id) {
    std::string r = std::to_string(id->namespaceIndex) + ":";
    char b[64];
    switch(id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: return r + "i=" + std::to_string(id->identifier.numeric);
    case UA_NODEIDTYPE_STRING: return r + "s=" + std::string((char *)id->identifier.string.data, id->identifier.string.length);
    case UA_NODEIDTYPE_GUID: {
        const UA_Guid &g = id->identifier.guid;
        snprintf(b, sizeof b, "g=%08x%04x%04x", g.data1, g.data2, g.data3);
        return r + b + hexs(g.data4, 8);
    }
    case UA_NODEIDTYPE_BYTESTRING: return r + "b=" + hexs(id->identifier.byteString.data, id->identifier.byteString.length);
    }
    return r + "?";
}

extern "C" {
const UA_VariableAttributes UA_VariableAttributes_default = {0, {{0, 0}, {0, 0}}, {{0, 0}, {0, 0}}, 0, 0, {0}, {0, UA_NODEIDTYPE_NUMERIC, {24}}, -2, 0, 0, 1, 1, 0.0, false};
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default = {0, {{0, 0}, {0, 0}}, {{0, 0}, {0, 0}}, 0, 0, {0}, {0, UA_NODEIDTYPE_NUMERIC, {24}}, -2, 0, 0, false};
const UA_ObjectAttributes UA_ObjectAttributes_default = {0};
const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default = {0};
const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default = {0};
const UA_DataTypeAttributes UA_DataTypeAttributes_default = {0};
const UA_ViewAttributes UA_ViewAttributes_default = {0};
const UA_MethodAttributes UA_MethodAttributes_default = {0, {{0, 0}, {0, 0}}, {{0, 0}, {0, 0}}, 0, 0, true, true};

UA_Server *UA_Server_new(void) {
    Own o;
    UA_Server *s = new UA_Server();
    memset(&s->config, 0, sizeof s->config);
    s->logger = {logCb, s, nullptr};
    s->config.logging = &s->logger;
    s->namespaces = {"http://opcfoundation.org/UA/", "urn:unconfigured:application"};
    initNs0(s);
    return s;
}
UA_StatusCode UA_Server_delete(UA_Server *s) {
    Own o;
    for(auto &n : s->nodes) freeNode(n.second);
    // UA_cleanupDataTypeWithCustom
    for(const UA_DataTypeArray *t = s->config.customDataTypes; t;) {
        const UA_DataTypeArray *next = t->next;
        if(t->cleanup) {
            for(size_t i = 0; i < t->typesSize; i++) {
                free((void *)(uintptr_t)t->types[i].typeName);
                for(size_t j = 0; j < t->types[i].membersSize; j++) free((void *)(uintptr_t)t->types[i].members[j].memberName);
                free((void *)t->types[i].members);
            }
            free((void *)(uintptr_t)t->types);
            free((void *)(uintptr_t)t);
        }
        t = next;
    }
    delete s;
    return UA_STATUSCODE_GOOD;
}
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return s ? &s->config : nullptr; }
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *name) {
    Own o;
    for(size_t i = 0; i < s->namespaces.size(); i++) if(s->namespaces[i] == name) return (UA_UInt16)i;
    s->namespaces.push_back(name);
    return (UA_UInt16)(s->namespaces.size() - 1);
}
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *s, const UA_String uri, size_t *idx) {
    for(size_t i = 0; i < s->namespaces.size(); i++)
        if(s->namespaces[i].size() == uri.length && !memcmp(s->namespaces[i].data(), uri.data, uri.length)) { *idx = i; return UA_STATUSCODE_GOOD; }
    return UA_STATUSCODE_BADNOTFOUND;
}
UA_StatusCode UA_Server_getNamespaceByIndex(UA_Server *s, const size_t i, UA_String *out) {
    if(i >= s->namespaces.size()) return UA_STATUSCODE_BADNOTFOUND;
    *out = UA_String_fromChars(s->namespaces[i].c_str());
    return UA_STATUSCODE_GOOD;
}
static void describe(UA_Server *s, const std::string &type, const std::string &other, bool fwd, UA_UInt32 mask, UA_ReferenceDescription *d) {
    memset(d, 0, sizeof *d);
    ShimNode *n = get(s, other), *t = get(s, type);
    UA_NodeId_copy(&n->id, &d->nodeId.nodeId);
    if((mask & UA_BROWSERESULTMASK_REFERENCETYPEID) && t) UA_NodeId_copy(&t->id, &d->referenceTypeId);
    if(mask & UA_BROWSERESULTMASK_ISFORWARD) d->isForward = fwd;
    if(mask & UA_BROWSERESULTMASK_NODECLASS) d->nodeClass = n->cls;
    if(mask & UA_BROWSERESULTMASK_BROWSENAME) UA_QualifiedName_copy(&n->bn, &d->browseName);
    if(mask & UA_BROWSERESULTMASK_DISPLAYNAME) UA_LocalizedText_copy(&((UA_ObjectAttributes *)n->attr)->displayName, &d->displayName);
    if((mask & UA_BROWSERESULTMASK_TYPEDEFINITION) && (n->cls == UA_NODECLASS_OBJECT || n->cls == UA_NODECLASS_VARIABLE))
        for(auto &r : n->out) if(r.first == "0:i=40") { ShimNode *x = get(s, r.second); if(x) UA_NodeId_copy(&x->id, &d->typeDefinition.nodeId); }
}
static UA_BrowseResult browseImpl(UA_Server *s, UA_UInt32 max, const std::vector<std::pair<bool, std::pair<std::string, std::string>>> &refs, size_t from, UA_UInt32 mask);
struct Cont { std::vector<std::pair<bool, std::pair<std::string, std::string>>> refs; size_t from; UA_UInt32 max, mask; };
static thread_local std::map<std::pair<UA_Server *, std::string>, Cont> conts;
static UA_BrowseResult browseImpl(UA_Server *s, UA_UInt32 max, const std::vector<std::pair<bool, std::pair<std::string, std::string>>> &refs, size_t from, UA_UInt32 mask) {
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    size_t n = refs.size() - from;
    bool more = max && n > max;
    if(more) n = max;
    br.referencesSize = n;
    br.references = (UA_ReferenceDescription *)(n ? UA_Array_new(n, &UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION]) : UA_EMPTY_ARRAY_SENTINEL);
    for(size_t i = 0; i < n; i++) describe(s, refs[from + i].second.first, refs[from + i].second.second, refs[from + i].first, mask, &br.references[i]);
    if(more) {
        std::string id;
        { Own o; id = "cp" + std::to_string(++s->openContinuationPoints); conts[{s, id}] = {refs, from + n, max, mask}; }
        br.continuationPoint = UA_String_fromChars(id.c_str());
    }
    return br;
}
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) {
    std::vector<std::pair<bool, std::pair<std::string, std::string>>> refs;
    ShimNode *n; bool all, badType = false;
    {
        Own o;
        n = get(s, bd->nodeId);
        all = UA_NodeId_isNull(&bd->referenceTypeId);
        std::string rt = shimId(&bd->referenceTypeId);
        if(!all && !get(s, rt)) badType = true;
        if(n && !badType) {
            auto take = [&](const std::set<std::pair<std::string, std::string>> &v, bool fwd) {
                for(auto &r : v) {
                    if(!all && !(bd->includeSubtypes ? inTree(s, r.first, rt) : r.first == rt)) continue;
                    ShimNode *t = get(s, r.second);
                    if(!t || (bd->nodeClassMask && !(t->cls & bd->nodeClassMask))) continue;
                    refs.push_back({fwd, r});
                }
            };
            if(bd->browseDirection != UA_BROWSEDIRECTION_INVERSE) take(n->out, true);
            if(bd->browseDirection != UA_BROWSEDIRECTION_FORWARD) take(n->in, false);
            if(s->reverseBrowse) refs = decltype(refs)(refs.rbegin(), refs.rend());
        }
    }
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    if(!n) { br.statusCode = UA_STATUSCODE_BADNODEIDUNKNOWN; return br; }
    if(badType) { br.statusCode = UA_STATUSCODE_BADREFERENCETYPEIDINVALID; return br; }
    br = browseImpl(s, max, refs, 0, bd->resultMask);
    { Own o; refs.clear(); refs.shrink_to_fit(); }
    return br;
}
UA_BrowseResult UA_Server_browseNext(UA_Server *s, UA_Boolean release, const UA_ByteString *cp) {
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    std::pair<UA_Server *, std::string> k{s, std::string((char *)cp->data, cp->length)};
    auto it = conts.find(k);
    if(it == conts.end()) { br.statusCode = UA_STATUSCODE_BADNOTFOUND; return br; }
    Cont c = it->second;
    { Own o; conts.erase(it); s->openContinuationPoints--; }
    if(release) return br;
    return browseImpl(s, c.max, c.refs, c.from, c.mask);
}
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass cls, const UA_NodeId req, const UA_NodeId parent, const UA_NodeId refType, const UA_QualifiedName bn,
    const UA_NodeId typeDef, const void *attr, const UA_DataType *attrType, void *ctx, UA_NodeId *out) {
    UA_StatusCode r; std::string id;
    {
        Own o;
        r = addImpl(s, cls, &req, &parent, &refType, bn, &typeDef, attr, attrType, ctx, &id);
        s->calls.push_back({"addNode " + shimId(&req), r});
        if(r) s->refused[shimId(&req)]++;
    }
    if(out) { memset(out, 0, sizeof *out); if(!r) UA_NodeId_copy(&get(s, id)->id, out); }
    { Own o; id.clear(); id.shrink_to_fit(); }
    return r;
}
UA_StatusCode UA_Server_addNode_finish(UA_Server *s, const UA_NodeId id) { Own o; return get(s, id) ? UA_STATUSCODE_GOOD : UA_STATUSCODE_BADNODEIDUNKNOWN; }
UA_StatusCode __UA_Server_addNode(UA_Server *s, const UA_NodeClass cls, const UA_NodeId *req, const UA_NodeId *parent, const UA_NodeId *refType, const UA_QualifiedName bn,
    const UA_NodeId *typeDef, const void *attr, const UA_DataType *attrType, void *ctx, UA_NodeId *out) {
    return UA_Server_addNode_begin(s, cls, *req, *parent, *refType, bn, *typeDef, attr, attrType, ctx, out);
}
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId type, const UA_ExpandedNodeId target, UA_Boolean fwd) {
    Own o;
    UA_StatusCode r = UA_STATUSCODE_GOOD;
    std::string a = shimId(&src), b = shimId(&target.nodeId), t = shimId(&type);
    ShimNode *rt = get(s, t);
    if(target.namespaceUri.length) r = UA_STATUSCODE_BADNOTIMPLEMENTED;
    else if(!rt || rt->cls != UA_NODECLASS_REFERENCETYPE) r = UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    else if(!get(s, a)) r = UA_STATUSCODE_BADSOURCENODEIDINVALID;
    else if(!get(s, b)) r = UA_STATUSCODE_BADTARGETNODEIDINVALID;
    else if(!(fwd ? addRef(s, a, t, b) : addRef(s, b, t, a))) r = UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED;
    s->calls.push_back({"addReference " + a + (fwd ? " > " : " < ") + t + " " + b, r});
    return r;
}
UA_StatusCode UA_Server_deleteReference(UA_Server *s, const UA_NodeId src, const UA_NodeId type, UA_Boolean fwd, const UA_ExpandedNodeId target, UA_Boolean) {
    Own o;
    std::string a = shimId(&src), b = shimId(&target.nodeId), t = shimId(&type);
    if(!fwd) std::swap(a, b);
    ShimNode *x = get(s, a), *y = get(s, b);
    if(!x || !y) return UA_STATUSCODE_BADNODEIDUNKNOWN;
    y->in.erase({t, a});
    s->calls.push_back({"deleteReference", 0});
    return x->out.erase({t, b}) ? UA_STATUSCODE_GOOD : UA_STATUSCODE_BADNOTFOUND;
}
UA_StatusCode UA_Server_deleteNode(UA_Server *s, const UA_NodeId id, UA_Boolean) {
    Own o;
    std::string k = shimId(&id);
    ShimNode *n = get(s, k);
    if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN;
    for(auto &r : n->out) { ShimNode *x = get(s, r.second); if(x) x->in.erase({r.first, k}); }
    for(auto &r : n->in) { ShimNode *x = get(s, r.second); if(x) x->out.erase({r.first, k}); }
    s->nodes.erase(k);
    freeNode(n);
    s->calls.push_back({"deleteNode " + k, 0});
    return UA_STATUSCODE_GOOD;
}
#define NODE ShimNode *n; { Own o; n = get(s, id); } if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN
UA_StatusCode UA_Server_readNodeClass(UA_Server *s, const UA_NodeId id, UA_NodeClass *out) { NODE; *out = n->cls; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_readNodeId(UA_Server *s, const UA_NodeId id, UA_NodeId *out) { NODE; return UA_NodeId_copy(&n->id, out); }
UA_StatusCode UA_Server_readBrowseName(UA_Server *s, const UA_NodeId id, UA_QualifiedName *out) { NODE; return UA_QualifiedName_copy(&n->bn, out); }
UA_StatusCode UA_Server_readIsAbstract(UA_Server *s, const UA_NodeId id, UA_Boolean *out) {
    NODE;
    if(!isTypeClass(n->cls)) return UA_STATUSCODE_BADATTRIBUTEIDINVALID;
    *out = isAbstract(n);
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_Server_readValue(UA_Server *s, const UA_NodeId id, UA_Variant *out) {
    NODE;
    if(n->cls != UA_NODECLASS_VARIABLE) return UA_STATUSCODE_BADATTRIBUTEIDINVALID;
    return UA_Variant_copy(&((UA_VariableAttributes *)n->attr)->value, out);
}
UA_StatusCode UA_Server_writeValue(UA_Server *s, const UA_NodeId id, const UA_Variant v) {
    NODE;
    if(n->cls != UA_NODECLASS_VARIABLE) return UA_STATUSCODE_BADATTRIBUTEIDINVALID;
    Own o;
    UA_Variant *d = &((UA_VariableAttributes *)n->attr)->value;
    UA_Variant_clear(d);
    return UA_Variant_copy(&v, d);
}
UA_StatusCode UA_Server_setNodeContext(UA_Server *s, UA_NodeId id, void *c) { NODE; n->ctx = c; return UA_STATUSCODE_GOOD; }
UA_StatusCode UA_Server_getNodeContext(UA_Server *s, UA_NodeId id, void **c) { NODE; *c = n->ctx; return UA_STATUSCODE_GOOD; }
const UA_DataType *UA_Server_findDataType(UA_Server *s, const UA_NodeId *id) { return UA_findDataTypeWithCustom(id, s->config.customDataTypes); }
}
