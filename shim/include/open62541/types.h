/* Stand-in for open62541 1.4 <open62541/types.h>: the part of the type API the nodeset loader (and
 * plausible edits of it) uses. Layouts and semantics follow open62541 1.4. */
#ifndef SHIM_OPEN62541_TYPES_H
#define SHIM_OPEN62541_TYPES_H
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <float.h>

#define UA_OPEN62541_VER_MAJOR 1
#define UA_OPEN62541_VER_MINOR 4
#define UA_OPEN62541_VER_PATCH 6
#define UA_ENABLE_TYPEDESCRIPTION
#define UA_ENABLE_TYPENAMES
#define UA_ENABLE_PARSING
#define UA_MULTITHREADING 0
#define UA_LOGLEVEL 100
#define UA_BINARY_OVERLAYABLE_INTEGER 1
#define UA_BINARY_OVERLAYABLE_FLOAT 1
#define UA_EXPORT
#define UA_INLINABLE(decl, impl) static inline decl impl
#define UA_FORMAT(X, Y)
#define UA_INTERNAL_FUNC_ATTR_WARN_UNUSED_RESULT
#define UA_FUNC_ATTR_WARN_UNUSED_RESULT
#define UA_FUNC_ATTR_PURE
#define UA_FUNC_ATTR_CONST
#define UA_FUNC_ATTR_MALLOC
#define UA_DEPRECATED
#define UA_INLINE inline
#define UA_assert(x) do { if(!(x)) abort(); } while(0)
#define UA_free free
#define UA_malloc malloc
#define UA_calloc calloc
#define UA_realloc realloc
#define UA_STACKARRAY(TYPE, NAME, SIZE) TYPE *(NAME) = (TYPE*)__builtin_alloca(sizeof(TYPE) * (SIZE))

#ifdef __cplusplus
extern "C" {
#endif

typedef bool UA_Boolean;
#define UA_TRUE true
#define UA_FALSE false
typedef int8_t UA_SByte;
#define UA_SBYTE_MIN (-128)
#define UA_SBYTE_MAX 127
typedef uint8_t UA_Byte;
#define UA_BYTE_MIN 0
#define UA_BYTE_MAX 255
typedef int16_t UA_Int16;
#define UA_INT16_MIN (-32768)
#define UA_INT16_MAX 32767
typedef uint16_t UA_UInt16;
#define UA_UINT16_MIN 0
#define UA_UINT16_MAX 65535
typedef int32_t UA_Int32;
#define UA_INT32_MIN ((int32_t)-2147483648LL)
#define UA_INT32_MAX 2147483647L
typedef uint32_t UA_UInt32;
#define UA_UINT32_MIN 0
#define UA_UINT32_MAX 4294967295UL
typedef int64_t UA_Int64;
#define UA_INT64_MAX (int64_t)9223372036854775807LL
#define UA_INT64_MIN ((int64_t)-UA_INT64_MAX-1LL)
typedef uint64_t UA_UInt64;
#define UA_UINT64_MIN (uint64_t)0
#define UA_UINT64_MAX (uint64_t)18446744073709551615ULL
typedef float UA_Float;
#define UA_FLOAT_MIN FLT_MIN
#define UA_FLOAT_MAX FLT_MAX
typedef double UA_Double;
#define UA_DOUBLE_MIN DBL_MIN
#define UA_DOUBLE_MAX DBL_MAX

typedef uint32_t UA_StatusCode;
#define UA_STATUSCODE_GOOD ((UA_StatusCode)0x00000000)
#define UA_STATUSCODE_UNCERTAIN ((UA_StatusCode)0x40000000)
#define UA_STATUSCODE_BAD ((UA_StatusCode)0x80000000)
#define UA_STATUSCODE_BADUNEXPECTEDERROR ((UA_StatusCode)0x80010000)
#define UA_STATUSCODE_BADINTERNALERROR ((UA_StatusCode)0x80020000)
#define UA_STATUSCODE_BADOUTOFMEMORY ((UA_StatusCode)0x80030000)
#define UA_STATUSCODE_BADRESOURCEUNAVAILABLE ((UA_StatusCode)0x80040000)
#define UA_STATUSCODE_BADENCODINGERROR ((UA_StatusCode)0x80060000)
#define UA_STATUSCODE_BADDECODINGERROR ((UA_StatusCode)0x80070000)
#define UA_STATUSCODE_BADNOTHINGTODO ((UA_StatusCode)0x800F0000)
#define UA_STATUSCODE_BADNODEIDINVALID ((UA_StatusCode)0x80330000)
#define UA_STATUSCODE_BADNODEIDUNKNOWN ((UA_StatusCode)0x80340000)
#define UA_STATUSCODE_BADATTRIBUTEIDINVALID ((UA_StatusCode)0x80350000)
#define UA_STATUSCODE_BADNOTFOUND ((UA_StatusCode)0x803E0000)
#define UA_STATUSCODE_BADNOTSUPPORTED ((UA_StatusCode)0x803D0000)
#define UA_STATUSCODE_BADNOTIMPLEMENTED ((UA_StatusCode)0x80400000)
#define UA_STATUSCODE_BADREFERENCETYPEIDINVALID ((UA_StatusCode)0x804C0000)
#define UA_STATUSCODE_BADPARENTNODEIDINVALID ((UA_StatusCode)0x805B0000)
#define UA_STATUSCODE_BADREFERENCENOTALLOWED ((UA_StatusCode)0x805C0000)
#define UA_STATUSCODE_BADNODEIDREJECTED ((UA_StatusCode)0x805D0000)
#define UA_STATUSCODE_BADNODEIDEXISTS ((UA_StatusCode)0x805E0000)
#define UA_STATUSCODE_BADNODECLASSINVALID ((UA_StatusCode)0x805F0000)
#define UA_STATUSCODE_BADBROWSENAMEINVALID ((UA_StatusCode)0x80600000)
#define UA_STATUSCODE_BADTYPEDEFINITIONINVALID ((UA_StatusCode)0x80630000)
#define UA_STATUSCODE_BADSOURCENODEIDINVALID ((UA_StatusCode)0x80640000)
#define UA_STATUSCODE_BADTARGETNODEIDINVALID ((UA_StatusCode)0x80650000)
#define UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED ((UA_StatusCode)0x80660000)
#define UA_STATUSCODE_BADTYPEMISMATCH ((UA_StatusCode)0x80740000)
#define UA_STATUSCODE_BADINVALIDARGUMENT ((UA_StatusCode)0x80AB0000)

static inline UA_Boolean UA_StatusCode_isBad(UA_StatusCode c) { return ((c >> 30) >= 0x02); }
static inline UA_Boolean UA_StatusCode_isUncertain(UA_StatusCode c) { return ((c >> 30) == 0x01); }
static inline UA_Boolean UA_StatusCode_isGood(UA_StatusCode c) { return ((c >> 30) == 0x00); }
const char *UA_StatusCode_name(UA_StatusCode code);

typedef enum { UA_ORDER_LESS = -1, UA_ORDER_EQ = 0, UA_ORDER_MORE = 1 } UA_Order;

typedef struct { size_t length; UA_Byte *data; } UA_String;
typedef int64_t UA_DateTime;
#define UA_DATETIME_USEC 10LL
#define UA_DATETIME_MSEC (UA_DATETIME_USEC * 1000LL)
#define UA_DATETIME_SEC (UA_DATETIME_MSEC * 1000LL)
#define UA_DATETIME_UNIX_EPOCH (11644473600LL * UA_DATETIME_SEC)
typedef struct UA_DateTimeStruct {
    UA_UInt16 nanoSec, microSec, milliSec, sec, min, hour, day, month;
    UA_Int16 year;
} UA_DateTimeStruct;
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime t);
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts);
UA_DateTime UA_DateTime_now(void);
static inline UA_Int64 UA_DateTime_toUnixTime(UA_DateTime date) { return (date - UA_DATETIME_UNIX_EPOCH) / UA_DATETIME_SEC; }
static inline UA_DateTime UA_DateTime_fromUnixTime(UA_Int64 unixDate) { return (unixDate * UA_DATETIME_SEC) + UA_DATETIME_UNIX_EPOCH; }

typedef struct { UA_UInt32 data1; UA_UInt16 data2; UA_UInt16 data3; UA_Byte data4[8]; } UA_Guid;
extern const UA_Guid UA_GUID_NULL;
typedef UA_String UA_ByteString;
typedef UA_String UA_XmlElement;
extern const UA_String UA_STRING_NULL;
extern const UA_ByteString UA_BYTESTRING_NULL;

enum UA_NodeIdType { UA_NODEIDTYPE_NUMERIC = 0, UA_NODEIDTYPE_STRING = 3, UA_NODEIDTYPE_GUID = 4, UA_NODEIDTYPE_BYTESTRING = 5 };
typedef struct {
    UA_UInt16 namespaceIndex;
    enum UA_NodeIdType identifierType;
    union {
        UA_UInt32 numeric;
        UA_String string;
        UA_Guid guid;
        UA_ByteString byteString;
    } identifier;
} UA_NodeId;
extern const UA_NodeId UA_NODEID_NULL;
typedef struct { UA_NodeId nodeId; UA_String namespaceUri; UA_UInt32 serverIndex; } UA_ExpandedNodeId;
extern const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
typedef struct { UA_UInt16 namespaceIndex; UA_String name; } UA_QualifiedName;
typedef struct { UA_String locale; UA_String text; } UA_LocalizedText;

typedef struct UA_DataType UA_DataType;
typedef struct UA_DataTypeMember {
    const char *memberName;
    const UA_DataType *memberType;
    UA_Byte padding : 6;
    UA_Byte isArray : 1;
    UA_Byte isOptional : 1;
} UA_DataTypeMember;
struct UA_DataType {
    const char *typeName;
    UA_NodeId typeId;
    UA_NodeId binaryEncodingId;
    UA_UInt32 memSize : 16;
    UA_UInt32 typeKind : 6;
    UA_UInt32 pointerFree : 1;
    UA_UInt32 overlayable : 1;
    UA_UInt32 membersSize : 8;
    UA_DataTypeMember *members;
};
typedef struct UA_DataTypeArray {
    const struct UA_DataTypeArray *next;
    const size_t typesSize;
    const UA_DataType *types;
    UA_Boolean cleanup;
} UA_DataTypeArray;
typedef enum {
    UA_DATATYPEKIND_BOOLEAN = 0, UA_DATATYPEKIND_SBYTE, UA_DATATYPEKIND_BYTE, UA_DATATYPEKIND_INT16,
    UA_DATATYPEKIND_UINT16, UA_DATATYPEKIND_INT32, UA_DATATYPEKIND_UINT32, UA_DATATYPEKIND_INT64,
    UA_DATATYPEKIND_UINT64, UA_DATATYPEKIND_FLOAT, UA_DATATYPEKIND_DOUBLE, UA_DATATYPEKIND_STRING,
    UA_DATATYPEKIND_DATETIME, UA_DATATYPEKIND_GUID, UA_DATATYPEKIND_BYTESTRING,
    UA_DATATYPEKIND_XMLELEMENT, UA_DATATYPEKIND_NODEID, UA_DATATYPEKIND_EXPANDEDNODEID,
    UA_DATATYPEKIND_STATUSCODE, UA_DATATYPEKIND_QUALIFIEDNAME, UA_DATATYPEKIND_LOCALIZEDTEXT,
    UA_DATATYPEKIND_EXTENSIONOBJECT, UA_DATATYPEKIND_DATAVALUE, UA_DATATYPEKIND_VARIANT,
    UA_DATATYPEKIND_DIAGNOSTICINFO, UA_DATATYPEKIND_DECIMAL, UA_DATATYPEKIND_ENUM,
    UA_DATATYPEKIND_STRUCTURE, UA_DATATYPEKIND_OPTSTRUCT, UA_DATATYPEKIND_UNION,
    UA_DATATYPEKIND_BITFIELDCLUSTER
} UA_DataTypeKind;
#define UA_DATATYPEKINDS 31

#define UA_EMPTY_ARRAY_SENTINEL ((void *)0x01)
typedef enum { UA_VARIANT_DATA, UA_VARIANT_DATA_NODELETE } UA_VariantStorageType;
typedef struct {
    const UA_DataType *type;
    UA_VariantStorageType storageType;
    size_t arrayLength;
    void *data;
    size_t arrayDimensionsSize;
    UA_UInt32 *arrayDimensions;
} UA_Variant;
typedef struct {
    UA_Variant value;
    UA_DateTime sourceTimestamp;
    UA_DateTime serverTimestamp;
    UA_UInt16 sourcePicoseconds;
    UA_UInt16 serverPicoseconds;
    UA_StatusCode status;
    UA_Boolean hasValue : 1;
    UA_Boolean hasStatus : 1;
    UA_Boolean hasSourceTimestamp : 1;
    UA_Boolean hasServerTimestamp : 1;
    UA_Boolean hasSourcePicoseconds : 1;
    UA_Boolean hasServerPicoseconds : 1;
} UA_DataValue;
typedef enum {
    UA_EXTENSIONOBJECT_ENCODED_NOBODY = 0, UA_EXTENSIONOBJECT_ENCODED_BYTESTRING = 1,
    UA_EXTENSIONOBJECT_ENCODED_XML = 2, UA_EXTENSIONOBJECT_DECODED = 3,
    UA_EXTENSIONOBJECT_DECODED_NODELETE = 4
} UA_ExtensionObjectEncoding;
typedef struct {
    UA_ExtensionObjectEncoding encoding;
    union {
        struct { UA_NodeId typeId; UA_ByteString body; } encoded;
        struct { const UA_DataType *type; void *data; } decoded;
    } content;
} UA_ExtensionObject;
typedef struct UA_DiagnosticInfo {
    UA_Boolean hasSymbolicId : 1;
    UA_Boolean hasNamespaceUri : 1;
    UA_Boolean hasLocalizedText : 1;
    UA_Boolean hasLocale : 1;
    UA_Boolean hasAdditionalInfo : 1;
    UA_Boolean hasInnerStatusCode : 1;
    UA_Boolean hasInnerDiagnosticInfo : 1;
    UA_Int32 symbolicId, namespaceUri, localizedText, locale;
    UA_String additionalInfo;
    UA_StatusCode innerStatusCode;
    struct UA_DiagnosticInfo *innerDiagnosticInfo;
} UA_DiagnosticInfo;
typedef struct { UA_UInt32 placeholder; } UA_NumericRangeDimension;

/* generic operations */
void UA_init(void *p, const UA_DataType *type);
void *UA_new(const UA_DataType *type);
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type);
void UA_clear(void *p, const UA_DataType *type);
void UA_delete(void *p, const UA_DataType *type);
UA_Order UA_order(const void *p1, const void *p2, const UA_DataType *type);
static inline UA_Boolean UA_equal(const void *p1, const void *p2, const UA_DataType *type) { return UA_order(p1, p2, type) == UA_ORDER_EQ; }
void *UA_Array_new(size_t size, const UA_DataType *type);
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type);
void UA_Array_delete(void *p, size_t size, const UA_DataType *type);
const UA_DataType *UA_findDataType(const UA_NodeId *typeId);
const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *typeId, const UA_DataTypeArray *customTypes);

/* strings */
UA_String UA_String_fromChars(const char *src);
UA_Boolean UA_String_isEmpty(const UA_String *s);
static inline UA_String UA_STRING(char *chars) {
    UA_String s; s.length = 0; s.data = NULL;
    if(!chars) return s;
    s.length = strlen(chars); s.data = (UA_Byte *)chars;
    return s;
}
#define UA_STRING_ALLOC(CHARS) UA_String_fromChars(CHARS)
#define UA_STRING_STATIC(CHARS) {sizeof(CHARS) - 1, (UA_Byte *)CHARS}
#define UA_BYTESTRING(chars) UA_STRING(chars)
#define UA_BYTESTRING_ALLOC(chars) UA_String_fromChars(chars)
UA_StatusCode UA_ByteString_allocBuffer(UA_ByteString *bs, size_t length);
UA_StatusCode UA_ByteString_fromBase64(UA_ByteString *bs, const UA_String *input);
UA_StatusCode UA_ByteString_toBase64(const UA_ByteString *bs, UA_String *output);

/* guid, nodeid, names */
UA_StatusCode UA_Guid_parse(UA_Guid *guid, const UA_String str);
UA_StatusCode UA_Guid_print(const UA_Guid *guid, UA_String *output);
UA_Guid UA_Guid_random(void);
static inline UA_Guid UA_GUID(const char *chars) {
    UA_Guid guid; UA_Guid_parse(&guid, UA_STRING((char *)(uintptr_t)chars)); return guid;
}
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p);
UA_Order UA_NodeId_order(const UA_NodeId *n1, const UA_NodeId *n2);
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n);
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output);
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str);
static inline UA_NodeId UA_NODEID(const char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(id)); UA_NodeId_parse(&id, UA_STRING((char *)(uintptr_t)chars)); return id;
}
static inline UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_NUMERIC; id.identifier.numeric = identifier; return id;
}
static inline UA_NodeId UA_NODEID_STRING(UA_UInt16 nsIndex, char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_STRING; id.identifier.string = UA_STRING(chars); return id;
}
static inline UA_NodeId UA_NODEID_STRING_ALLOC(UA_UInt16 nsIndex, const char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_STRING; id.identifier.string = UA_STRING_ALLOC(chars); return id;
}
static inline UA_NodeId UA_NODEID_GUID(UA_UInt16 nsIndex, UA_Guid guid) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_GUID; id.identifier.guid = guid; return id;
}
static inline UA_NodeId UA_NODEID_BYTESTRING(UA_UInt16 nsIndex, char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_BYTESTRING; id.identifier.byteString = UA_BYTESTRING(chars); return id;
}
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NODEID(UA_NodeId nodeId) {
    UA_ExpandedNodeId id; memset(&id, 0, sizeof(id)); id.nodeId = nodeId; return id;
}
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier) {
    UA_ExpandedNodeId id; memset(&id, 0, sizeof(id)); id.nodeId = UA_NODEID_NUMERIC(nsIndex, identifier); return id;
}
static inline UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 nsIndex, char *chars) {
    UA_QualifiedName qn; memset(&qn, 0, sizeof(qn)); qn.namespaceIndex = nsIndex; qn.name = UA_STRING(chars); return qn;
}
static inline UA_QualifiedName UA_QUALIFIEDNAME_ALLOC(UA_UInt16 nsIndex, const char *chars) {
    UA_QualifiedName qn; memset(&qn, 0, sizeof(qn)); qn.namespaceIndex = nsIndex; qn.name = UA_STRING_ALLOC(chars); return qn;
}
static inline UA_LocalizedText UA_LOCALIZEDTEXT(char *locale, char *text) {
    UA_LocalizedText lt; lt.locale = UA_STRING(locale); lt.text = UA_STRING(text); return lt;
}
static inline UA_LocalizedText UA_LOCALIZEDTEXT_ALLOC(const char *locale, const char *text) {
    UA_LocalizedText lt; lt.locale = UA_STRING_ALLOC(locale); lt.text = UA_STRING_ALLOC(text); return lt;
}

/* variants */
UA_Boolean UA_Variant_isEmpty(const UA_Variant *v);
static inline UA_Boolean UA_Variant_isScalar(const UA_Variant *v) {
    return (v->arrayLength == 0 && v->data > UA_EMPTY_ARRAY_SENTINEL);
}
static inline UA_Boolean UA_Variant_hasScalarType(const UA_Variant *v, const UA_DataType *type) {
    return UA_Variant_isScalar(v) && type == v->type;
}
static inline UA_Boolean UA_Variant_hasArrayType(const UA_Variant *v, const UA_DataType *type) {
    return (!UA_Variant_isScalar(v)) && type == v->type;
}
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type);
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type);
void UA_Variant_setArray(UA_Variant *v, void *array, size_t arraySize, const UA_DataType *type);
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *array, size_t arraySize, const UA_DataType *type);

UA_UInt32 UA_UInt32_random(void);
size_t UA_readNumber(const UA_Byte *buf, size_t buflen, UA_UInt32 *number);
size_t UA_readNumberWithBase(const UA_Byte *buf, size_t buflen, UA_UInt32 *number, UA_Byte base);

#ifdef __cplusplus
}
#endif
#include "types_generated.h"
#endif
