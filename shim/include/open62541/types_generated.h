#ifndef SHIM_OPEN62541_TYPES_GENERATED_H
#define SHIM_OPEN62541_TYPES_GENERATED_H
#include "types.h"
#include "nodeids.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum {
    UA_NODECLASS_UNSPECIFIED = 0, UA_NODECLASS_OBJECT = 1, UA_NODECLASS_VARIABLE = 2,
    UA_NODECLASS_METHOD = 4, UA_NODECLASS_OBJECTTYPE = 8, UA_NODECLASS_VARIABLETYPE = 16,
    UA_NODECLASS_REFERENCETYPE = 32, UA_NODECLASS_DATATYPE = 64, UA_NODECLASS_VIEW = 128,
    __UA_NODECLASS_FORCE32BIT = 0x7fffffff
} UA_NodeClass;
typedef enum {
    UA_BROWSEDIRECTION_FORWARD = 0, UA_BROWSEDIRECTION_INVERSE = 1, UA_BROWSEDIRECTION_BOTH = 2,
    UA_BROWSEDIRECTION_INVALID = 3, __UA_BROWSEDIRECTION_FORCE32BIT = 0x7fffffff
} UA_BrowseDirection;
typedef enum {
    UA_BROWSERESULTMASK_NONE = 0, UA_BROWSERESULTMASK_REFERENCETYPEID = 1,
    UA_BROWSERESULTMASK_ISFORWARD = 2, UA_BROWSERESULTMASK_NODECLASS = 4,
    UA_BROWSERESULTMASK_BROWSENAME = 8, UA_BROWSERESULTMASK_DISPLAYNAME = 16,
    UA_BROWSERESULTMASK_TYPEDEFINITION = 32, UA_BROWSERESULTMASK_ALL = 63
} UA_BrowseResultMask;
typedef UA_Int64 UA_UtcTime_;
typedef UA_DateTime UA_UtcTime;
typedef UA_Double UA_Duration;
typedef UA_String UA_LocaleId;
typedef struct { UA_Double low; UA_Double high; } UA_Range;
typedef struct { UA_String namespaceUri; UA_Int32 unitId; UA_LocalizedText displayName; UA_LocalizedText description; } UA_EUInformation;
typedef struct { UA_Int64 value; UA_LocalizedText displayName; UA_LocalizedText description; } UA_EnumValueType;
typedef struct {
    UA_String name; UA_NodeId dataType; UA_Int32 valueRank;
    size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions; UA_LocalizedText description;
} UA_Argument;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Byte eventNotifier;
} UA_ObjectAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Variant value; UA_NodeId dataType;
    UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions; UA_Byte accessLevel;
    UA_Byte userAccessLevel; UA_Double minimumSamplingInterval; UA_Boolean historizing;
} UA_VariableAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean executable; UA_Boolean userExecutable;
} UA_MethodAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean isAbstract;
} UA_ObjectTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Variant value; UA_NodeId dataType;
    UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions; UA_Boolean isAbstract;
} UA_VariableTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean isAbstract; UA_Boolean symmetric;
    UA_LocalizedText inverseName;
} UA_ReferenceTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean isAbstract;
} UA_DataTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean containsNoLoops; UA_Byte eventNotifier;
} UA_ViewAttributes;
typedef struct {
    UA_NodeId nodeId; UA_BrowseDirection browseDirection; UA_NodeId referenceTypeId;
    UA_Boolean includeSubtypes; UA_UInt32 nodeClassMask; UA_UInt32 resultMask;
} UA_BrowseDescription;
typedef struct {
    UA_NodeId referenceTypeId; UA_Boolean isForward; UA_ExpandedNodeId nodeId;
    UA_QualifiedName browseName; UA_LocalizedText displayName; UA_NodeClass nodeClass;
    UA_ExpandedNodeId typeDefinition;
} UA_ReferenceDescription;
typedef struct {
    UA_StatusCode statusCode; UA_ByteString continuationPoint;
    size_t referencesSize; UA_ReferenceDescription *references;
} UA_BrowseResult;

typedef struct { UA_ByteString value; UA_ByteString validBits; } UA_OptionSet;
#define UA_TYPES_BOOLEAN 0
#define UA_TYPES_SBYTE 1
#define UA_TYPES_BYTE 2
#define UA_TYPES_INT16 3
#define UA_TYPES_UINT16 4
#define UA_TYPES_INT32 5
#define UA_TYPES_UINT32 6
#define UA_TYPES_INT64 7
#define UA_TYPES_UINT64 8
#define UA_TYPES_FLOAT 9
#define UA_TYPES_DOUBLE 10
#define UA_TYPES_STRING 11
#define UA_TYPES_DATETIME 12
#define UA_TYPES_GUID 13
#define UA_TYPES_BYTESTRING 14
#define UA_TYPES_XMLELEMENT 15
#define UA_TYPES_NODEID 16
#define UA_TYPES_EXPANDEDNODEID 17
#define UA_TYPES_STATUSCODE 18
#define UA_TYPES_QUALIFIEDNAME 19
#define UA_TYPES_LOCALIZEDTEXT 20
#define UA_TYPES_EXTENSIONOBJECT 21
#define UA_TYPES_DATAVALUE 22
#define UA_TYPES_VARIANT 23
#define UA_TYPES_DIAGNOSTICINFO 24
#define UA_TYPES_UTCTIME 25
#define UA_TYPES_DURATION 26
#define UA_TYPES_LOCALEID 27
#define UA_TYPES_NODECLASS 28
#define UA_TYPES_BROWSEDIRECTION 29
#define UA_TYPES_RANGE 30
#define UA_TYPES_EUINFORMATION 31
#define UA_TYPES_ENUMVALUETYPE 32
#define UA_TYPES_ARGUMENT 33
#define UA_TYPES_OBJECTATTRIBUTES 34
#define UA_TYPES_VARIABLEATTRIBUTES 35
#define UA_TYPES_METHODATTRIBUTES 36
#define UA_TYPES_OBJECTTYPEATTRIBUTES 37
#define UA_TYPES_VARIABLETYPEATTRIBUTES 38
#define UA_TYPES_REFERENCETYPEATTRIBUTES 39
#define UA_TYPES_DATATYPEATTRIBUTES 40
#define UA_TYPES_VIEWATTRIBUTES 41
#define UA_TYPES_BROWSEDESCRIPTION 42
#define UA_TYPES_REFERENCEDESCRIPTION 43
#define UA_TYPES_BROWSERESULT 44
#define UA_TYPES_OPTIONSET 45
#define UA_TYPES_COUNT 46
extern UA_DataType UA_TYPES[UA_TYPES_COUNT];

#define UA_SHIM_HANDLING(T, I)                                                                     \
    static inline void UA_##T##_init(UA_##T *p) { memset(p, 0, sizeof(UA_##T)); }                  \
    static inline UA_##T *UA_##T##_new(void) { return (UA_##T *)UA_new(&UA_TYPES[I]); }            \
    static inline UA_StatusCode UA_##T##_copy(const UA_##T *src, UA_##T *dst) { return UA_copy(src, dst, &UA_TYPES[I]); } \
    static inline void UA_##T##_clear(UA_##T *p) { UA_clear(p, &UA_TYPES[I]); }                    \
    static inline void UA_##T##_delete(UA_##T *p) { UA_delete(p, &UA_TYPES[I]); }                  \
    static inline UA_Boolean UA_##T##_equal(const UA_##T *a, const UA_##T *b) { return UA_order(a, b, &UA_TYPES[I]) == UA_ORDER_EQ; }
UA_SHIM_HANDLING(Boolean, UA_TYPES_BOOLEAN)
UA_SHIM_HANDLING(SByte, UA_TYPES_SBYTE)
UA_SHIM_HANDLING(Byte, UA_TYPES_BYTE)
UA_SHIM_HANDLING(Int16, UA_TYPES_INT16)
UA_SHIM_HANDLING(UInt16, UA_TYPES_UINT16)
UA_SHIM_HANDLING(Int32, UA_TYPES_INT32)
UA_SHIM_HANDLING(UInt32, UA_TYPES_UINT32)
UA_SHIM_HANDLING(Int64, UA_TYPES_INT64)
UA_SHIM_HANDLING(UInt64, UA_TYPES_UINT64)
UA_SHIM_HANDLING(Float, UA_TYPES_FLOAT)
UA_SHIM_HANDLING(Double, UA_TYPES_DOUBLE)
UA_SHIM_HANDLING(String, UA_TYPES_STRING)
UA_SHIM_HANDLING(DateTime, UA_TYPES_DATETIME)
UA_SHIM_HANDLING(Guid, UA_TYPES_GUID)
UA_SHIM_HANDLING(ByteString, UA_TYPES_BYTESTRING)
UA_SHIM_HANDLING(XmlElement, UA_TYPES_XMLELEMENT)
UA_SHIM_HANDLING(NodeId, UA_TYPES_NODEID)
UA_SHIM_HANDLING(ExpandedNodeId, UA_TYPES_EXPANDEDNODEID)
UA_SHIM_HANDLING(StatusCode, UA_TYPES_STATUSCODE)
UA_SHIM_HANDLING(QualifiedName, UA_TYPES_QUALIFIEDNAME)
UA_SHIM_HANDLING(LocalizedText, UA_TYPES_LOCALIZEDTEXT)
UA_SHIM_HANDLING(ExtensionObject, UA_TYPES_EXTENSIONOBJECT)
UA_SHIM_HANDLING(DataValue, UA_TYPES_DATAVALUE)
UA_SHIM_HANDLING(Variant, UA_TYPES_VARIANT)
UA_SHIM_HANDLING(DiagnosticInfo, UA_TYPES_DIAGNOSTICINFO)
UA_SHIM_HANDLING(Range, UA_TYPES_RANGE)
UA_SHIM_HANDLING(EUInformation, UA_TYPES_EUINFORMATION)
UA_SHIM_HANDLING(EnumValueType, UA_TYPES_ENUMVALUETYPE)
UA_SHIM_HANDLING(Argument, UA_TYPES_ARGUMENT)
UA_SHIM_HANDLING(ObjectAttributes, UA_TYPES_OBJECTATTRIBUTES)
UA_SHIM_HANDLING(VariableAttributes, UA_TYPES_VARIABLEATTRIBUTES)
UA_SHIM_HANDLING(MethodAttributes, UA_TYPES_METHODATTRIBUTES)
UA_SHIM_HANDLING(ObjectTypeAttributes, UA_TYPES_OBJECTTYPEATTRIBUTES)
UA_SHIM_HANDLING(VariableTypeAttributes, UA_TYPES_VARIABLETYPEATTRIBUTES)
UA_SHIM_HANDLING(ReferenceTypeAttributes, UA_TYPES_REFERENCETYPEATTRIBUTES)
UA_SHIM_HANDLING(DataTypeAttributes, UA_TYPES_DATATYPEATTRIBUTES)
UA_SHIM_HANDLING(ViewAttributes, UA_TYPES_VIEWATTRIBUTES)
UA_SHIM_HANDLING(BrowseDescription, UA_TYPES_BROWSEDESCRIPTION)
UA_SHIM_HANDLING(ReferenceDescription, UA_TYPES_REFERENCEDESCRIPTION)
UA_SHIM_HANDLING(BrowseResult, UA_TYPES_BROWSERESULT)
#ifdef __cplusplus
}
#endif
#endif
