/* Stand-in for the open62541 1.4 type system (see DESIGN.md, "the stand-in server"). */
#include "open62541/types.h"
#include <stdlib.h>

const UA_Guid UA_GUID_NULL = {0, 0, 0, {0, 0, 0, 0, 0, 0, 0, 0}};
const UA_String UA_STRING_NULL = {0, NULL};
const UA_ByteString UA_BYTESTRING_NULL = {0, NULL};
const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL = {{0, UA_NODEIDTYPE_NUMERIC, {0}}, {0, NULL}, 0};

const char *UA_StatusCode_name(UA_StatusCode code) {
    switch(code) {
    case UA_STATUSCODE_GOOD: return "Good";
    case UA_STATUSCODE_BADOUTOFMEMORY: return "BadOutOfMemory";
    case UA_STATUSCODE_BADNODEIDEXISTS: return "BadNodeIdExists";
    case UA_STATUSCODE_BADPARENTNODEIDINVALID: return "BadParentNodeIdInvalid";
    case UA_STATUSCODE_BADTYPEDEFINITIONINVALID: return "BadTypeDefinitionInvalid";
    case UA_STATUSCODE_BADNODEIDINVALID: return "BadNodeIdInvalid";
    default: return "Unknown StatusCode";
    }
}

/* ---- type table ---- */
#define PAD(S, PREV_END, M) ((unsigned)(offsetof(S, M) - (PREV_END)) & 63)
#define END(S, M) (offsetof(S, M) + sizeof(((S *)0)->M))
#define MT(N, T, P, A, O) {N, &UA_TYPES[T], (P), (A), (O)}

static UA_DataTypeMember Range_m[2] = {
    MT("Low", UA_TYPES_DOUBLE, 0, 0, 0),
    MT("High", UA_TYPES_DOUBLE, PAD(UA_Range, END(UA_Range, low), high), 0, 0)};
static UA_DataTypeMember EUInformation_m[4] = {
    MT("NamespaceUri", UA_TYPES_STRING, 0, 0, 0),
    MT("UnitId", UA_TYPES_INT32, PAD(UA_EUInformation, END(UA_EUInformation, namespaceUri), unitId), 0, 0),
    MT("DisplayName", UA_TYPES_LOCALIZEDTEXT, PAD(UA_EUInformation, END(UA_EUInformation, unitId), displayName), 0, 0),
    MT("Description", UA_TYPES_LOCALIZEDTEXT, PAD(UA_EUInformation, END(UA_EUInformation, displayName), description), 0, 0)};
static UA_DataTypeMember EnumValueType_m[3] = {
    MT("Value", UA_TYPES_INT64, 0, 0, 0),
    MT("DisplayName", UA_TYPES_LOCALIZEDTEXT, PAD(UA_EnumValueType, END(UA_EnumValueType, value), displayName), 0, 0),
    MT("Description", UA_TYPES_LOCALIZEDTEXT, PAD(UA_EnumValueType, END(UA_EnumValueType, displayName), description), 0, 0)};
static UA_DataTypeMember Argument_m[5] = {
    MT("Name", UA_TYPES_STRING, 0, 0, 0),
    MT("DataType", UA_TYPES_NODEID, PAD(UA_Argument, END(UA_Argument, name), dataType), 0, 0),
    MT("ValueRank", UA_TYPES_INT32, PAD(UA_Argument, END(UA_Argument, dataType), valueRank), 0, 0),
    MT("ArrayDimensions", UA_TYPES_UINT32, PAD(UA_Argument, END(UA_Argument, valueRank), arrayDimensionsSize), 1, 0),
    MT("Description", UA_TYPES_LOCALIZEDTEXT, PAD(UA_Argument, END(UA_Argument, arrayDimensions), description), 0, 0)};
static UA_DataTypeMember OptionSet_m[2] = {
    MT("Value", UA_TYPES_BYTESTRING, 0, 0, 0),
    MT("ValidBits", UA_TYPES_BYTESTRING, PAD(UA_OptionSet, END(UA_OptionSet, value), validBits), 0, 0)};
#define COMMON5(S)                                                                                  \
    MT("SpecifiedAttributes", UA_TYPES_UINT32, 0, 0, 0),                                            \
    MT("DisplayName", UA_TYPES_LOCALIZEDTEXT, PAD(S, END(S, specifiedAttributes), displayName), 0, 0), \
    MT("Description", UA_TYPES_LOCALIZEDTEXT, PAD(S, END(S, displayName), description), 0, 0),      \
    MT("WriteMask", UA_TYPES_UINT32, PAD(S, END(S, description), writeMask), 0, 0),                 \
    MT("UserWriteMask", UA_TYPES_UINT32, PAD(S, END(S, writeMask), userWriteMask), 0, 0)
static UA_DataTypeMember ObjectAttributes_m[6] = {
    COMMON5(UA_ObjectAttributes),
    MT("EventNotifier", UA_TYPES_BYTE, PAD(UA_ObjectAttributes, END(UA_ObjectAttributes, userWriteMask), eventNotifier), 0, 0)};
#define VA UA_VariableAttributes
static UA_DataTypeMember VariableAttributes_m[13] = {
    COMMON5(VA), MT("Value", UA_TYPES_VARIANT, PAD(VA, END(VA, userWriteMask), value), 0, 0),
    MT("DataType", UA_TYPES_NODEID, PAD(VA, END(VA, value), dataType), 0, 0),
    MT("ValueRank", UA_TYPES_INT32, PAD(VA, END(VA, dataType), valueRank), 0, 0),
    MT("ArrayDimensions", UA_TYPES_UINT32, PAD(VA, END(VA, valueRank), arrayDimensionsSize), 1, 0),
    MT("AccessLevel", UA_TYPES_BYTE, PAD(VA, END(VA, arrayDimensions), accessLevel), 0, 0),
    MT("UserAccessLevel", UA_TYPES_BYTE, PAD(VA, END(VA, accessLevel), userAccessLevel), 0, 0),
    MT("MinimumSamplingInterval", UA_TYPES_DOUBLE, PAD(VA, END(VA, userAccessLevel), minimumSamplingInterval), 0, 0),
    MT("Historizing", UA_TYPES_BOOLEAN, PAD(VA, END(VA, minimumSamplingInterval), historizing), 0, 0)};
#undef VA
static UA_DataTypeMember MethodAttributes_m[7] = {
    COMMON5(UA_MethodAttributes), MT("Executable", UA_TYPES_BOOLEAN, 0, 0, 0), MT("UserExecutable", UA_TYPES_BOOLEAN, 0, 0, 0)};
static UA_DataTypeMember ObjectTypeAttributes_m[6] = {
    COMMON5(UA_ObjectTypeAttributes), MT("IsAbstract", UA_TYPES_BOOLEAN, 0, 0, 0)};
#define VA UA_VariableTypeAttributes
static UA_DataTypeMember VariableTypeAttributes_m[10] = {
    COMMON5(VA), MT("Value", UA_TYPES_VARIANT, PAD(VA, END(VA, userWriteMask), value), 0, 0),
    MT("DataType", UA_TYPES_NODEID, PAD(VA, END(VA, value), dataType), 0, 0),
    MT("ValueRank", UA_TYPES_INT32, PAD(VA, END(VA, dataType), valueRank), 0, 0),
    MT("ArrayDimensions", UA_TYPES_UINT32, PAD(VA, END(VA, valueRank), arrayDimensionsSize), 1, 0),
    MT("IsAbstract", UA_TYPES_BOOLEAN, PAD(VA, END(VA, arrayDimensions), isAbstract), 0, 0)};
#undef VA
static UA_DataTypeMember ReferenceTypeAttributes_m[8] = {
    COMMON5(UA_ReferenceTypeAttributes), MT("IsAbstract", UA_TYPES_BOOLEAN, 0, 0, 0), MT("Symmetric", UA_TYPES_BOOLEAN, 0, 0, 0),
    MT("InverseName", UA_TYPES_LOCALIZEDTEXT, PAD(UA_ReferenceTypeAttributes, END(UA_ReferenceTypeAttributes, symmetric), inverseName), 0, 0)};
static UA_DataTypeMember DataTypeAttributes_m[6] = {
    COMMON5(UA_DataTypeAttributes), MT("IsAbstract", UA_TYPES_BOOLEAN, 0, 0, 0)};
static UA_DataTypeMember ViewAttributes_m[7] = {
    COMMON5(UA_ViewAttributes), MT("ContainsNoLoops", UA_TYPES_BOOLEAN, 0, 0, 0), MT("EventNotifier", UA_TYPES_BYTE, 0, 0, 0)};
#define BD UA_BrowseDescription
static UA_DataTypeMember BrowseDescription_m[6] = {
    MT("NodeId", UA_TYPES_NODEID, 0, 0, 0),
    MT("BrowseDirection", UA_TYPES_BROWSEDIRECTION, PAD(BD, END(BD, nodeId), browseDirection), 0, 0),
    MT("ReferenceTypeId", UA_TYPES_NODEID, PAD(BD, END(BD, browseDirection), referenceTypeId), 0, 0),
    MT("IncludeSubtypes", UA_TYPES_BOOLEAN, PAD(BD, END(BD, referenceTypeId), includeSubtypes), 0, 0),
    MT("NodeClassMask", UA_TYPES_UINT32, PAD(BD, END(BD, includeSubtypes), nodeClassMask), 0, 0),
    MT("ResultMask", UA_TYPES_UINT32, PAD(BD, END(BD, nodeClassMask), resultMask), 0, 0)};
#undef BD
#define RD UA_ReferenceDescription
static UA_DataTypeMember ReferenceDescription_m[7] = {
    MT("ReferenceTypeId", UA_TYPES_NODEID, 0, 0, 0),
    MT("IsForward", UA_TYPES_BOOLEAN, PAD(RD, END(RD, referenceTypeId), isForward), 0, 0),
    MT("NodeId", UA_TYPES_EXPANDEDNODEID, PAD(RD, END(RD, isForward), nodeId), 0, 0),
    MT("BrowseName", UA_TYPES_QUALIFIEDNAME, PAD(RD, END(RD, nodeId), browseName), 0, 0),
    MT("DisplayName", UA_TYPES_LOCALIZEDTEXT, PAD(RD, END(RD, browseName), displayName), 0, 0),
    MT("NodeClass", UA_TYPES_NODECLASS, PAD(RD, END(RD, displayName), nodeClass), 0, 0),
    MT("TypeDefinition", UA_TYPES_EXPANDEDNODEID, PAD(RD, END(RD, nodeClass), typeDefinition), 0, 0)};
#undef RD
#define BR UA_BrowseResult
static UA_DataTypeMember BrowseResult_m[3] = {
    MT("StatusCode", UA_TYPES_STATUSCODE, 0, 0, 0),
    MT("ContinuationPoint", UA_TYPES_BYTESTRING, PAD(BR, END(BR, statusCode), continuationPoint), 0, 0),
    MT("References", UA_TYPES_REFERENCEDESCRIPTION, PAD(BR, END(BR, continuationPoint), referencesSize), 1, 0)};
#undef BR

#define NSZ(i) {0, UA_NODEIDTYPE_NUMERIC, {i}}
#define TY(NAME, ID, ENC, CTYPE, KIND, PF, OV) {NAME, NSZ(ID), NSZ(ENC), sizeof(CTYPE), KIND, PF, OV, 0, NULL}
#define TS(NAME, ID, ENC, PF) {#NAME, NSZ(ID), NSZ(ENC), sizeof(UA_##NAME), UA_DATATYPEKIND_STRUCTURE, PF, 0, sizeof(NAME##_m) / sizeof(NAME##_m[0]), NAME##_m}
UA_DataType UA_TYPES[UA_TYPES_COUNT] = {
    TY("Boolean", 1, 0, UA_Boolean, UA_DATATYPEKIND_BOOLEAN, 1, 1),
    TY("SByte", 2, 0, UA_SByte, UA_DATATYPEKIND_SBYTE, 1, 1),
    TY("Byte", 3, 0, UA_Byte, UA_DATATYPEKIND_BYTE, 1, 1),
    TY("Int16", 4, 0, UA_Int16, UA_DATATYPEKIND_INT16, 1, 1),
    TY("UInt16", 5, 0, UA_UInt16, UA_DATATYPEKIND_UINT16, 1, 1),
    TY("Int32", 6, 0, UA_Int32, UA_DATATYPEKIND_INT32, 1, 1),
    TY("UInt32", 7, 0, UA_UInt32, UA_DATATYPEKIND_UINT32, 1, 1),
    TY("Int64", 8, 0, UA_Int64, UA_DATATYPEKIND_INT64, 1, 1),
    TY("UInt64", 9, 0, UA_UInt64, UA_DATATYPEKIND_UINT64, 1, 1),
    TY("Float", 10, 0, UA_Float, UA_DATATYPEKIND_FLOAT, 1, 1),
    TY("Double", 11, 0, UA_Double, UA_DATATYPEKIND_DOUBLE, 1, 1),
    TY("String", 12, 0, UA_String, UA_DATATYPEKIND_STRING, 0, 0),
    TY("DateTime", 13, 0, UA_DateTime, UA_DATATYPEKIND_DATETIME, 1, 1),
    TY("Guid", 14, 0, UA_Guid, UA_DATATYPEKIND_GUID, 1, 0),
    TY("ByteString", 15, 0, UA_ByteString, UA_DATATYPEKIND_BYTESTRING, 0, 0),
    TY("XmlElement", 16, 0, UA_XmlElement, UA_DATATYPEKIND_XMLELEMENT, 0, 0),
    TY("NodeId", 17, 0, UA_NodeId, UA_DATATYPEKIND_NODEID, 0, 0),
    TY("ExpandedNodeId", 18, 0, UA_ExpandedNodeId, UA_DATATYPEKIND_EXPANDEDNODEID, 0, 0),
    TY("StatusCode", 19, 0, UA_StatusCode, UA_DATATYPEKIND_STATUSCODE, 1, 1),
    TY("QualifiedName", 20, 0, UA_QualifiedName, UA_DATATYPEKIND_QUALIFIEDNAME, 0, 0),
    TY("LocalizedText", 21, 0, UA_LocalizedText, UA_DATATYPEKIND_LOCALIZEDTEXT, 0, 0),
    TY("ExtensionObject", 22, 0, UA_ExtensionObject, UA_DATATYPEKIND_EXTENSIONOBJECT, 0, 0),
    TY("DataValue", 23, 0, UA_DataValue, UA_DATATYPEKIND_DATAVALUE, 0, 0),
    TY("Variant", 24, 0, UA_Variant, UA_DATATYPEKIND_VARIANT, 0, 0),
    TY("DiagnosticInfo", 25, 0, UA_DiagnosticInfo, UA_DATATYPEKIND_DIAGNOSTICINFO, 0, 0),
    TY("UtcTime", 294, 0, UA_DateTime, UA_DATATYPEKIND_DATETIME, 1, 1),
    TY("Duration", 290, 0, UA_Double, UA_DATATYPEKIND_DOUBLE, 1, 1),
    TY("LocaleId", 295, 0, UA_String, UA_DATATYPEKIND_STRING, 0, 0),
    TY("NodeClass", 257, 0, UA_NodeClass, UA_DATATYPEKIND_ENUM, 1, 1),
    TY("BrowseDirection", 510, 0, UA_BrowseDirection, UA_DATATYPEKIND_ENUM, 1, 1),
    TS(Range, 884, 886, 1),
    TS(EUInformation, 887, 889, 0),
    TS(EnumValueType, 7594, 8251, 0),
    TS(Argument, 296, 298, 0),
    TS(ObjectAttributes, 352, 354, 0),
    TS(VariableAttributes, 355, 357, 0),
    TS(MethodAttributes, 358, 360, 0),
    TS(ObjectTypeAttributes, 361, 363, 0),
    TS(VariableTypeAttributes, 364, 366, 0),
    TS(ReferenceTypeAttributes, 367, 369, 0),
    TS(DataTypeAttributes, 370, 372, 0),
    TS(ViewAttributes, 373, 375, 0),
    TS(BrowseDescription, 514, 516, 0),
    TS(ReferenceDescription, 518, 520, 0),
    TS(BrowseResult, 522, 524, 0),
    TS(OptionSet, 12755, 12765, 0),
};

const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *typeId, const UA_DataTypeArray *custom) {
    for(size_t i = 0; i < UA_TYPES_COUNT; i++)
        if(UA_NodeId_equal(&UA_TYPES[i].typeId, typeId)) return &UA_TYPES[i];
    for(; custom; custom = custom->next)
        for(size_t i = 0; i < custom->typesSize; i++)
            if(UA_NodeId_equal(&custom->types[i].typeId, typeId)) return &custom->types[i];
    return NULL;
}
const UA_DataType *UA_findDataType(const UA_NodeId *typeId) { return UA_findDataTypeWithCustom(typeId, NULL); }

/* ---- generic operations ---- */
void UA_init(void *p, const UA_DataType *type) { memset(p, 0, type->memSize); }
void *UA_new(const UA_DataType *type) { return calloc(1, type->memSize ? type->memSize : 1); }
void *UA_Array_new(size_t size, const UA_DataType *type) {
    if(size == 0) return UA_EMPTY_ARRAY_SENTINEL;
    return calloc(size, type->memSize);
}
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type) {
    if(size == 0) {
        *dst = src ? UA_EMPTY_ARRAY_SENTINEL : NULL;
        return UA_STATUSCODE_GOOD;
    }
    if(!src) { *dst = NULL; return UA_STATUSCODE_BADINTERNALERROR; }
    *dst = calloc(size, type->memSize);
    if(!*dst) return UA_STATUSCODE_BADOUTOFMEMORY;
    for(size_t i = 0; i < size; i++)
        UA_copy((const char *)src + i * type->memSize, (char *)*dst + i * type->memSize, type);
    return UA_STATUSCODE_GOOD;
}
void UA_Array_delete(void *p, size_t size, const UA_DataType *type) {
    if((uintptr_t)p <= 1) return;
    for(size_t i = 0; i < size; i++) UA_clear((char *)p + i * type->memSize, type);
    free(p);
}

static UA_StatusCode String_copy(const UA_String *s, UA_String *d) {
    d->length = s->length;
    if(s->length == 0) { d->data = s->data ? (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL : NULL; return 0; }
    d->data = (UA_Byte *)malloc(s->length);
    if(!d->data) { d->length = 0; return UA_STATUSCODE_BADOUTOFMEMORY; }
    memcpy(d->data, s->data, s->length);
    return 0;
}
static void String_clear(UA_String *s) { if((uintptr_t)s->data > 1) free(s->data); s->data = NULL; s->length = 0; }
static UA_StatusCode NodeId_copy(const UA_NodeId *s, UA_NodeId *d) {
    *d = *s;
    if(s->identifierType == UA_NODEIDTYPE_STRING || s->identifierType == UA_NODEIDTYPE_BYTESTRING)
        return String_copy(&s->identifier.string, &d->identifier.string);
    return 0;
}
static void NodeId_clear(UA_NodeId *n) {
    if(n->identifierType == UA_NODEIDTYPE_STRING || n->identifierType == UA_NODEIDTYPE_BYTESTRING)
        String_clear(&n->identifier.string);
    memset(n, 0, sizeof *n);
}
static UA_StatusCode Variant_copy(const UA_Variant *s, UA_Variant *d) {
    memset(d, 0, sizeof *d);
    size_t len = s->arrayLength;
    if(UA_Variant_isScalar(s)) len = 1;
    if(s->type) UA_Array_copy(s->data, len, &d->data, s->type);
    d->arrayLength = s->arrayLength;
    d->type = s->type;
    if(s->arrayDimensions) {
        UA_Array_copy(s->arrayDimensions, s->arrayDimensionsSize, (void **)&d->arrayDimensions, &UA_TYPES[UA_TYPES_UINT32]);
        d->arrayDimensionsSize = s->arrayDimensionsSize;
    }
    return 0;
}
static void Variant_clear(UA_Variant *p) {
    if(p->storageType == UA_VARIANT_DATA_NODELETE) { memset(p, 0, sizeof *p); return; }
    if(p->type && p->data > UA_EMPTY_ARRAY_SENTINEL) {
        if(p->arrayLength == 0) p->arrayLength = 1;
        UA_Array_delete(p->data, p->arrayLength, p->type);
    }
    if((void *)p->arrayDimensions > UA_EMPTY_ARRAY_SENTINEL) free(p->arrayDimensions);
    memset(p, 0, sizeof *p);
}

typedef void (*memberFn)(void *a, void *b, const UA_DataType *t, int isArray, int isOptional, void *ctx);

UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type) {
    memset(dst, 0, type->memSize);
    switch((UA_DataTypeKind)type->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT:
        return String_copy((const UA_String *)src, (UA_String *)dst);
    case UA_DATATYPEKIND_NODEID: return NodeId_copy((const UA_NodeId *)src, (UA_NodeId *)dst);
    case UA_DATATYPEKIND_EXPANDEDNODEID: {
        const UA_ExpandedNodeId *s = (const UA_ExpandedNodeId *)src;
        UA_ExpandedNodeId *d = (UA_ExpandedNodeId *)dst;
        d->serverIndex = s->serverIndex;
        NodeId_copy(&s->nodeId, &d->nodeId);
        return String_copy(&s->namespaceUri, &d->namespaceUri);
    }
    case UA_DATATYPEKIND_QUALIFIEDNAME: {
        const UA_QualifiedName *s = (const UA_QualifiedName *)src;
        UA_QualifiedName *d = (UA_QualifiedName *)dst;
        d->namespaceIndex = s->namespaceIndex;
        return String_copy(&s->name, &d->name);
    }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: {
        const UA_LocalizedText *s = (const UA_LocalizedText *)src;
        UA_LocalizedText *d = (UA_LocalizedText *)dst;
        String_copy(&s->locale, &d->locale);
        return String_copy(&s->text, &d->text);
    }
    case UA_DATATYPEKIND_EXTENSIONOBJECT: {
        const UA_ExtensionObject *s = (const UA_ExtensionObject *)src;
        UA_ExtensionObject *d = (UA_ExtensionObject *)dst;
        d->encoding = s->encoding;
        if(s->encoding <= UA_EXTENSIONOBJECT_ENCODED_XML) {
            NodeId_copy(&s->content.encoded.typeId, &d->content.encoded.typeId);
            return String_copy(&s->content.encoded.body, &d->content.encoded.body);
        }
        d->encoding = UA_EXTENSIONOBJECT_DECODED;
        d->content.decoded.type = s->content.decoded.type;
        if(s->content.decoded.type)
            return UA_Array_copy(s->content.decoded.data, 1, &d->content.decoded.data, s->content.decoded.type);
        return 0;
    }
    case UA_DATATYPEKIND_DATAVALUE: {
        *(UA_DataValue *)dst = *(const UA_DataValue *)src;
        return Variant_copy(&((const UA_DataValue *)src)->value, &((UA_DataValue *)dst)->value);
    }
    case UA_DATATYPEKIND_VARIANT: return Variant_copy((const UA_Variant *)src, (UA_Variant *)dst);
    case UA_DATATYPEKIND_DIAGNOSTICINFO: {
        memcpy(dst, src, type->memSize);
        ((UA_DiagnosticInfo *)dst)->innerDiagnosticInfo = NULL;
        return String_copy(&((const UA_DiagnosticInfo *)src)->additionalInfo, &((UA_DiagnosticInfo *)dst)->additionalInfo);
    }
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        uintptr_t s = (uintptr_t)src, d = (uintptr_t)dst;
        for(size_t i = 0; i < type->membersSize; i++) {
            const UA_DataTypeMember *m = &type->members[i];
            s += m->padding; d += m->padding;
            if(m->isArray) {
                size_t n = *(const size_t *)s;
                *(size_t *)d = n;
                s += sizeof(size_t); d += sizeof(size_t);
                UA_Array_copy(*(void *const *)s, n, (void **)d, m->memberType);
                s += sizeof(void *); d += sizeof(void *);
            } else if(m->isOptional && type->typeKind == UA_DATATYPEKIND_OPTSTRUCT) {
                if(*(void *const *)s) UA_Array_copy(*(void *const *)s, 1, (void **)d, m->memberType);
                s += sizeof(void *); d += sizeof(void *);
            } else {
                UA_copy((const void *)s, (void *)d, m->memberType);
                s += m->memberType->memSize; d += m->memberType->memSize;
            }
        }
        return 0;
    }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sel = *(const UA_UInt32 *)src;
        *(UA_UInt32 *)dst = sel;
        if(sel == 0 || sel > type->membersSize) return 0;
        const UA_DataTypeMember *m = &type->members[sel - 1];
        uintptr_t s = (uintptr_t)src + m->padding, d = (uintptr_t)dst + m->padding;
        if(m->isArray) {
            size_t n = *(const size_t *)s;
            *(size_t *)d = n;
            return UA_Array_copy(*(void *const *)(s + sizeof(size_t)), n, (void **)(d + sizeof(size_t)), m->memberType);
        }
        return UA_copy((const void *)s, (void *)d, m->memberType);
    }
    default: memcpy(dst, src, type->memSize); return 0;
    }
}

static void clearNoInit(void *p, const UA_DataType *type) {
    switch((UA_DataTypeKind)type->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT:
        String_clear((UA_String *)p); break;
    case UA_DATATYPEKIND_NODEID: NodeId_clear((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_EXPANDEDNODEID:
        NodeId_clear(&((UA_ExpandedNodeId *)p)->nodeId);
        String_clear(&((UA_ExpandedNodeId *)p)->namespaceUri);
        break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: String_clear(&((UA_QualifiedName *)p)->name); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT:
        String_clear(&((UA_LocalizedText *)p)->locale);
        String_clear(&((UA_LocalizedText *)p)->text);
        break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT: {
        UA_ExtensionObject *e = (UA_ExtensionObject *)p;
        if(e->encoding <= UA_EXTENSIONOBJECT_ENCODED_XML) {
            NodeId_clear(&e->content.encoded.typeId);
            String_clear(&e->content.encoded.body);
        } else if(e->encoding == UA_EXTENSIONOBJECT_DECODED && e->content.decoded.data)
            UA_delete(e->content.decoded.data, e->content.decoded.type);
        break;
    }
    case UA_DATATYPEKIND_DATAVALUE: Variant_clear(&((UA_DataValue *)p)->value); break;
    case UA_DATATYPEKIND_VARIANT: Variant_clear((UA_Variant *)p); break;
    case UA_DATATYPEKIND_DIAGNOSTICINFO: String_clear(&((UA_DiagnosticInfo *)p)->additionalInfo); break;
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        uintptr_t s = (uintptr_t)p;
        for(size_t i = 0; i < type->membersSize; i++) {
            const UA_DataTypeMember *m = &type->members[i];
            s += m->padding;
            if(m->isArray) {
                size_t n = *(const size_t *)s;
                s += sizeof(size_t);
                UA_Array_delete(*(void **)s, n, m->memberType);
                s += sizeof(void *);
            } else if(m->isOptional && type->typeKind == UA_DATATYPEKIND_OPTSTRUCT) {
                if(*(void **)s) UA_Array_delete(*(void **)s, 1, m->memberType);
                s += sizeof(void *);
            } else {
                clearNoInit((void *)s, m->memberType);
                s += m->memberType->memSize;
            }
        }
        break;
    }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sel = *(const UA_UInt32 *)p;
        if(sel == 0 || sel > type->membersSize) break;
        const UA_DataTypeMember *m = &type->members[sel - 1];
        uintptr_t s = (uintptr_t)p + m->padding;
        if(m->isArray) UA_Array_delete(*(void **)(s + sizeof(size_t)), *(const size_t *)s, m->memberType);
        else clearNoInit((void *)s, m->memberType);
        break;
    }
    default: break;
    }
}
void UA_clear(void *p, const UA_DataType *type) { clearNoInit(p, type); memset(p, 0, type->memSize); }
void UA_delete(void *p, const UA_DataType *type) {
    if((uintptr_t)p <= 1) return;
    clearNoInit(p, type);
    free(p);
}

static UA_Order ord(int c) { return c < 0 ? UA_ORDER_LESS : c > 0 ? UA_ORDER_MORE : UA_ORDER_EQ; }
#define CMP(a, b) ((a) < (b) ? UA_ORDER_LESS : (a) > (b) ? UA_ORDER_MORE : UA_ORDER_EQ)
static UA_Order String_order(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return CMP(a->length, b->length);
    if(a->data == b->data) return UA_ORDER_EQ;
    if(a->length == 0) return a->data == NULL ? UA_ORDER_LESS : b->data == NULL ? UA_ORDER_MORE : UA_ORDER_EQ;
    if(!a->data) return UA_ORDER_LESS;
    if(!b->data) return UA_ORDER_MORE;
    return ord(memcmp(a->data, b->data, a->length));
}
static UA_Order Guid_order(const UA_Guid *a, const UA_Guid *b) {
    if(a->data1 != b->data1) return CMP(a->data1, b->data1);
    if(a->data2 != b->data2) return CMP(a->data2, b->data2);
    if(a->data3 != b->data3) return CMP(a->data3, b->data3);
    return ord(memcmp(a->data4, b->data4, 8));
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a->namespaceIndex != b->namespaceIndex) return CMP(a->namespaceIndex, b->namespaceIndex);
    if(a->identifierType != b->identifierType) return CMP(a->identifierType, b->identifierType);
    switch(a->identifierType) {
    case UA_NODEIDTYPE_GUID: return Guid_order(&a->identifier.guid, &b->identifier.guid);
    case UA_NODEIDTYPE_STRING: case UA_NODEIDTYPE_BYTESTRING: return String_order(&a->identifier.string, &b->identifier.string);
    case UA_NODEIDTYPE_NUMERIC: default: return CMP(a->identifier.numeric, b->identifier.numeric);
    }
}
UA_Order UA_order(const void *a, const void *b, const UA_DataType *type) {
    UA_Order o;
    switch((UA_DataTypeKind)type->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: return CMP(*(const UA_Boolean *)a, *(const UA_Boolean *)b);
    case UA_DATATYPEKIND_SBYTE: return CMP(*(const UA_SByte *)a, *(const UA_SByte *)b);
    case UA_DATATYPEKIND_BYTE: return CMP(*(const UA_Byte *)a, *(const UA_Byte *)b);
    case UA_DATATYPEKIND_INT16: return CMP(*(const UA_Int16 *)a, *(const UA_Int16 *)b);
    case UA_DATATYPEKIND_UINT16: return CMP(*(const UA_UInt16 *)a, *(const UA_UInt16 *)b);
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: return CMP(*(const UA_Int32 *)a, *(const UA_Int32 *)b);
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: return CMP(*(const UA_UInt32 *)a, *(const UA_UInt32 *)b);
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: return CMP(*(const UA_Int64 *)a, *(const UA_Int64 *)b);
    case UA_DATATYPEKIND_UINT64: return CMP(*(const UA_UInt64 *)a, *(const UA_UInt64 *)b);
    case UA_DATATYPEKIND_FLOAT: return CMP(*(const UA_Float *)a, *(const UA_Float *)b);
    case UA_DATATYPEKIND_DOUBLE: return CMP(*(const UA_Double *)a, *(const UA_Double *)b);
    case UA_DATATYPEKIND_GUID: return Guid_order((const UA_Guid *)a, (const UA_Guid *)b);
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT:
        return String_order((const UA_String *)a, (const UA_String *)b);
    case UA_DATATYPEKIND_NODEID: return UA_NodeId_order((const UA_NodeId *)a, (const UA_NodeId *)b);
    case UA_DATATYPEKIND_EXPANDEDNODEID: {
        const UA_ExpandedNodeId *x = (const UA_ExpandedNodeId *)a, *y = (const UA_ExpandedNodeId *)b;
        if(x->serverIndex != y->serverIndex) return CMP(x->serverIndex, y->serverIndex);
        if((o = String_order(&x->namespaceUri, &y->namespaceUri))) return o;
        return UA_NodeId_order(&x->nodeId, &y->nodeId);
    }
    case UA_DATATYPEKIND_QUALIFIEDNAME: {
        const UA_QualifiedName *x = (const UA_QualifiedName *)a, *y = (const UA_QualifiedName *)b;
        if(x->namespaceIndex != y->namespaceIndex) return CMP(x->namespaceIndex, y->namespaceIndex);
        return String_order(&x->name, &y->name);
    }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: {
        const UA_LocalizedText *x = (const UA_LocalizedText *)a, *y = (const UA_LocalizedText *)b;
        if((o = String_order(&x->locale, &y->locale))) return o;
        return String_order(&x->text, &y->text);
    }
    default: return ord(memcmp(a, b, type->memSize));
    }
}

/* ---- strings ---- */
UA_String UA_String_fromChars(const char *src) {
    UA_String s = {0, NULL};
    if(!src) return s;
    s.length = strlen(src);
    if(s.length) {
        s.data = (UA_Byte *)malloc(s.length);
        if(!s.data) { s.length = 0; return s; }
        memcpy(s.data, src, s.length);
    } else s.data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL;
    return s;
}
UA_Boolean UA_String_isEmpty(const UA_String *s) { return s->length == 0 || s->data == NULL; }
UA_StatusCode UA_ByteString_allocBuffer(UA_ByteString *bs, size_t length) {
    bs->length = 0; bs->data = NULL;
    if(length == 0) return 0;
    bs->data = (UA_Byte *)malloc(length);
    if(!bs->data) return UA_STATUSCODE_BADOUTOFMEMORY;
    bs->length = length;
    return 0;
}
static int b64v(unsigned char c) {
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    if(c == '+') return 62;
    if(c == '/') return 63;
    return -1;
}
UA_StatusCode UA_ByteString_fromBase64(UA_ByteString *bs, const UA_String *in) {
    bs->length = 0; bs->data = NULL;
    if(in->length == 0) return 0;
    UA_Byte *out = (UA_Byte *)malloc(in->length + 1);
    size_t n = 0; unsigned acc = 0; int bits = 0; size_t cnt = 0, pad = 0;
    for(size_t i = 0; i < in->length; i++) {
        unsigned char c = in->data[i];
        if(c == '=') { pad++; cnt++; continue; }
        int v = b64v(c);
        if(v < 0 || pad) { free(out); return UA_STATUSCODE_BADINTERNALERROR; }
        acc = (acc << 6) | (unsigned)v; bits += 6; cnt++;
        if(bits >= 8) { bits -= 8; out[n++] = (UA_Byte)(acc >> bits); }
    }
    if(cnt % 4 || pad > 2) { free(out); return UA_STATUSCODE_BADINTERNALERROR; }
    bs->length = n;
    if(n == 0) { free(out); bs->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; } else bs->data = out;
    return 0;
}
UA_StatusCode UA_ByteString_toBase64(const UA_ByteString *bs, UA_String *output) {
    static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    output->length = 0; output->data = NULL;
    if(!bs->length) return 0;
    size_t n = (bs->length + 2) / 3 * 4;
    output->data = (UA_Byte *)malloc(n);
    output->length = n;
    for(size_t i = 0, o = 0; i < bs->length; i += 3, o += 4) {
        unsigned v = bs->data[i] << 16;
        if(i + 1 < bs->length) v |= bs->data[i + 1] << 8;
        if(i + 2 < bs->length) v |= bs->data[i + 2];
        output->data[o] = T[v >> 18]; output->data[o + 1] = T[(v >> 12) & 63];
        output->data[o + 2] = i + 1 < bs->length ? T[(v >> 6) & 63] : '=';
        output->data[o + 3] = i + 2 < bs->length ? T[v & 63] : '=';
    }
    return 0;
}

/* ---- guid / nodeid ---- */
static int hexv(unsigned char c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static int readhex(const UA_Byte *p, int n, UA_UInt32 *out) {
    *out = 0;
    for(int i = 0; i < n; i++) {
        int v = hexv(p[i]);
        if(v < 0) return 0;
        *out = (*out << 4) | (UA_UInt32)v;
    }
    return 1;
}
UA_StatusCode UA_Guid_parse(UA_Guid *g, const UA_String s) {
    memset(g, 0, sizeof *g);
    UA_Guid r; UA_UInt32 v;
    memset(&r, 0, sizeof r);
    if(s.length != 36 || s.data[8] != '-' || s.data[13] != '-' || s.data[18] != '-' || s.data[23] != '-')
        return UA_STATUSCODE_BADDECODINGERROR;
    if(!readhex(s.data, 8, &r.data1)) return UA_STATUSCODE_BADDECODINGERROR;
    if(!readhex(s.data + 9, 4, &v)) return UA_STATUSCODE_BADDECODINGERROR;
    r.data2 = (UA_UInt16)v;
    if(!readhex(s.data + 14, 4, &v)) return UA_STATUSCODE_BADDECODINGERROR;
    r.data3 = (UA_UInt16)v;
    for(int i = 0; i < 8; i++) {
        const UA_Byte *p = i < 2 ? s.data + 19 + 2 * i : s.data + 24 + 2 * (i - 2);
        if(!readhex(p, 2, &v)) return UA_STATUSCODE_BADDECODINGERROR;
        r.data4[i] = (UA_Byte)v;
    }
    *g = r;
    return 0;
}
UA_StatusCode UA_Guid_print(const UA_Guid *g, UA_String *out) {
    char b[40];
    snprintf(b, sizeof b, "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x", g->data1, g->data2, g->data3,
             g->data4[0], g->data4[1], g->data4[2], g->data4[3], g->data4[4], g->data4[5], g->data4[6], g->data4[7]);
    *out = UA_String_fromChars(b);
    return 0;
}
UA_Guid UA_Guid_random(void) { return UA_GUID_NULL; }
UA_UInt32 UA_UInt32_random(void) { return 4; }
size_t UA_readNumberWithBase(const UA_Byte *buf, size_t len, UA_UInt32 *number, UA_Byte base) {
    UA_UInt32 n = 0; size_t i = 0;
    for(; i < len; i++) {
        int v = hexv(buf[i]);
        if(v < 0 || v >= base) break;
        n = n * base + (UA_UInt32)v;
    }
    *number = n;
    return i;
}
size_t UA_readNumber(const UA_Byte *buf, size_t len, UA_UInt32 *number) { return UA_readNumberWithBase(buf, len, number, 10); }

UA_Boolean UA_NodeId_isNull(const UA_NodeId *p) {
    if(p->namespaceIndex != 0) return false;
    switch(p->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: return p->identifier.numeric == 0;
    case UA_NODEIDTYPE_GUID: return Guid_order(&p->identifier.guid, &UA_GUID_NULL) == UA_ORDER_EQ;
    default: return p->identifier.string.length == 0;
    }
}
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n) {
    UA_UInt32 h = 2166136261u ^ n->namespaceIndex;
    const UA_Byte *p; size_t len;
    switch(n->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: p = (const UA_Byte *)&n->identifier.numeric; len = 4; break;
    case UA_NODEIDTYPE_GUID: p = (const UA_Byte *)&n->identifier.guid; len = sizeof(UA_Guid); break;
    default: p = n->identifier.string.data; len = n->identifier.string.length; break;
    }
    for(size_t i = 0; i < len; i++) h = (h ^ p[i]) * 16777619u;
    return h;
}
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output) {
    char pre[16] = "";
    if(id->namespaceIndex) snprintf(pre, sizeof pre, "ns=%u;", id->namespaceIndex);
    UA_String body = {0, NULL};
    char num[16]; char t = 'i'; int owned = 0;
    switch(id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: snprintf(num, sizeof num, "%u", id->identifier.numeric); body = UA_STRING(num); break;
    case UA_NODEIDTYPE_STRING: t = 's'; body = id->identifier.string; break;
    case UA_NODEIDTYPE_GUID: t = 'g'; UA_Guid_print(&id->identifier.guid, &body); owned = 1; break;
    case UA_NODEIDTYPE_BYTESTRING: t = 'b'; UA_ByteString_toBase64(&id->identifier.byteString, &body); owned = 1; break;
    default: return UA_STATUSCODE_BADINTERNALERROR;
    }
    size_t pl = strlen(pre);
    if(output->length == 0) {
        output->length = pl + 2 + body.length;
        output->data = (UA_Byte *)malloc(output->length);
        if(!output->data) { output->length = 0; if(owned) String_clear(&body); return UA_STATUSCODE_BADOUTOFMEMORY; }
    } else if(output->length < pl + 2 + body.length) {
        if(owned) String_clear(&body);
        return UA_STATUSCODE_BADENCODINGERROR;
    } else output->length = pl + 2 + body.length;
    memcpy(output->data, pre, pl);
    output->data[pl] = (UA_Byte)t; output->data[pl + 1] = '=';
    if(body.length) memcpy(output->data + pl + 2, body.data, body.length);
    if(owned) String_clear(&body);
    return 0;
}
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    memset(id, 0, sizeof *id);
    const UA_Byte *p = str.data, *e = str.data + str.length;
    UA_UInt32 ns = 0;
    if(e - p > 3 && !memcmp(p, "ns=", 3)) {
        p += 3;
        size_t n = UA_readNumber(p, (size_t)(e - p), &ns);
        if(n == 0 || p + n >= e || p[n] != ';' || ns > 65535) return UA_STATUSCODE_BADDECODINGERROR;
        p += n + 1;
    }
    if(e - p < 2 || p[1] != '=') return UA_STATUSCODE_BADDECODINGERROR;
    UA_Byte t = p[0];
    p += 2;
    UA_String rest = {(size_t)(e - p), (UA_Byte *)(uintptr_t)p};
    switch(t) {
    case 'i': {
        UA_UInt32 v;
        size_t n = UA_readNumber(p, rest.length, &v);
        if(n == 0 || n != rest.length) return UA_STATUSCODE_BADDECODINGERROR;
        id->identifier.numeric = v;
        break;
    }
    case 's':
        if(String_copy(&rest, &id->identifier.string)) return UA_STATUSCODE_BADOUTOFMEMORY;
        id->identifierType = UA_NODEIDTYPE_STRING;
        break;
    case 'g':
        if(UA_Guid_parse(&id->identifier.guid, rest)) { memset(id, 0, sizeof *id); return UA_STATUSCODE_BADDECODINGERROR; }
        id->identifierType = UA_NODEIDTYPE_GUID;
        break;
    case 'b':
        if(UA_ByteString_fromBase64(&id->identifier.byteString, &rest)) { memset(id, 0, sizeof *id); return UA_STATUSCODE_BADDECODINGERROR; }
        id->identifierType = UA_NODEIDTYPE_BYTESTRING;
        break;
    default: return UA_STATUSCODE_BADDECODINGERROR;
    }
    id->namespaceIndex = (UA_UInt16)ns;
    return 0;
}

/* ---- variants ---- */
UA_Boolean UA_Variant_isEmpty(const UA_Variant *v) { return v->type == NULL; }
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type) {
    memset(v, 0, sizeof *v);
    v->type = type; v->data = p;
}
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type) {
    void *n = UA_new(type);
    if(!n) return UA_STATUSCODE_BADOUTOFMEMORY;
    UA_copy(p, n, type);
    UA_Variant_setScalar(v, n, type);
    return 0;
}
void UA_Variant_setArray(UA_Variant *v, void *array, size_t n, const UA_DataType *type) {
    memset(v, 0, sizeof *v);
    v->data = array; v->arrayLength = n; v->type = type;
}
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *array, size_t n, const UA_DataType *type) {
    memset(v, 0, sizeof *v);
    UA_Array_copy(array, n, &v->data, type);
    v->arrayLength = n; v->type = type;
    return 0;
}

/* ---- time ---- */
static int64_t days_from_civil(int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3u : 9u)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts) {
    /* as musl's tm_to_secs: month overflow is carried into the year */
    int64_t mon = (int64_t)ts.month - 1, y = ts.year;
    y += mon / 12; mon %= 12;
    if(mon < 0) { y--; mon += 12; }
    int64_t days = days_from_civil(y, (unsigned)mon + 1, 1) + (int64_t)ts.day - 1;
    int64_t sec = days * 86400 + (int64_t)ts.hour * 3600 + (int64_t)ts.min * 60 + ts.sec;
    UA_DateTime t = UA_DATETIME_UNIX_EPOCH + sec * UA_DATETIME_SEC;
    return t + (int64_t)ts.nanoSec / 100 + (int64_t)ts.microSec * UA_DATETIME_USEC + (int64_t)ts.milliSec * UA_DATETIME_MSEC;
}
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime t) {
    UA_DateTimeStruct r;
    memset(&r, 0, sizeof r);
    int64_t s = t / UA_DATETIME_SEC, frac = t % UA_DATETIME_SEC;
    if(frac < 0) { frac += UA_DATETIME_SEC; s--; }
    r.nanoSec = (UA_UInt16)((frac % 10) * 100); r.microSec = (UA_UInt16)((frac % 10000) / 10); r.milliSec = (UA_UInt16)(frac / 10000);
    s -= 11644473600LL;
    int64_t days = s / 86400, rem = s % 86400;
    if(rem < 0) { rem += 86400; days--; }
    r.hour = (UA_UInt16)(rem / 3600); r.min = (UA_UInt16)(rem / 60 % 60); r.sec = (UA_UInt16)(rem % 60);
    days += 719468;
    int64_t era = (days >= 0 ? days : days - 146096) / 146097;
    unsigned doe = (unsigned)(days - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = (int64_t)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    r.day = (UA_UInt16)(doy - (153 * mp + 2) / 5 + 1);
    r.month = (UA_UInt16)(mp < 10 ? mp + 3 : mp - 9);
    r.year = (UA_Int16)(y + (r.month <= 2));
    return r;
}
UA_DateTime UA_DateTime_now(void) { return UA_DATETIME_UNIX_EPOCH; }
