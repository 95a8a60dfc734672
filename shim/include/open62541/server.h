/* Stand-in for open62541 1.4 <open62541/server.h>: a mock server, see shim/src/server.cpp. */
#ifndef SHIM_OPEN62541_SERVER_H
#define SHIM_OPEN62541_SERVER_H
#include "types.h"
#include "types_generated.h"
#include "plugin/log.h"
#ifdef __cplusplus
extern "C" {
#endif
struct UA_Server;
typedef struct UA_Server UA_Server;
typedef struct UA_ServerConfig {
    void *context;
    UA_Logger *logging;
    const UA_DataTypeArray *customDataTypes;
} UA_ServerConfig;
typedef UA_StatusCode (*UA_MethodCallback)(UA_Server *server, const UA_NodeId *sessionId,
    void *sessionContext, const UA_NodeId *methodId, void *methodContext, const UA_NodeId *objectId,
    void *objectContext, size_t inputSize, const UA_Variant *input, size_t outputSize, UA_Variant *output);

extern const UA_VariableAttributes UA_VariableAttributes_default;
extern const UA_VariableTypeAttributes UA_VariableTypeAttributes_default;
extern const UA_ObjectAttributes UA_ObjectAttributes_default;
extern const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
extern const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
extern const UA_DataTypeAttributes UA_DataTypeAttributes_default;
extern const UA_ViewAttributes UA_ViewAttributes_default;
extern const UA_MethodAttributes UA_MethodAttributes_default;

UA_Server *UA_Server_new(void);
UA_StatusCode UA_Server_delete(UA_Server *server);
UA_ServerConfig *UA_Server_getConfig(UA_Server *server);
UA_UInt16 UA_Server_addNamespace(UA_Server *server, const char *name);
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *server, const UA_String namespaceUri, size_t *foundIndex);
UA_StatusCode UA_Server_getNamespaceByIndex(UA_Server *server, const size_t namespaceIndex, UA_String *foundUri);
UA_BrowseResult UA_Server_browse(UA_Server *server, UA_UInt32 maxReferences, const UA_BrowseDescription *bd);
UA_BrowseResult UA_Server_browseNext(UA_Server *server, UA_Boolean releaseContinuationPoint, const UA_ByteString *continuationPoint);
UA_StatusCode UA_Server_addNode_begin(UA_Server *server, const UA_NodeClass nodeClass,
    const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId,
    const UA_QualifiedName browseName, const UA_NodeId typeDefinition, const void *attr,
    const UA_DataType *attributeType, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addNode_finish(UA_Server *server, const UA_NodeId nodeId);
UA_StatusCode __UA_Server_addNode(UA_Server *server, const UA_NodeClass nodeClass,
    const UA_NodeId *requestedNewNodeId, const UA_NodeId *parentNodeId, const UA_NodeId *referenceTypeId,
    const UA_QualifiedName browseName, const UA_NodeId *typeDefinition, const void *attr,
    const UA_DataType *attributeType, void *nodeContext, UA_NodeId *outNewNodeId);
#define UA_SHIM_ADD(NAME, CLASS, ATTR, TYPE)                                                        \
    static inline UA_StatusCode UA_Server_add##NAME##Node(UA_Server *server, const UA_NodeId id,    \
        const UA_NodeId parent, const UA_NodeId refType, const UA_QualifiedName bn, const ATTR attr, \
        void *ctx, UA_NodeId *out) {                                                                \
        UA_NodeId n; memset(&n, 0, sizeof(n));                                                      \
        return __UA_Server_addNode(server, CLASS, &id, &parent, &refType, bn, &n, &attr, &UA_TYPES[TYPE], ctx, out); \
    }
UA_SHIM_ADD(ObjectType, UA_NODECLASS_OBJECTTYPE, UA_ObjectTypeAttributes, UA_TYPES_OBJECTTYPEATTRIBUTES)
UA_SHIM_ADD(ReferenceType, UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes, UA_TYPES_REFERENCETYPEATTRIBUTES)
UA_SHIM_ADD(DataType, UA_NODECLASS_DATATYPE, UA_DataTypeAttributes, UA_TYPES_DATATYPEATTRIBUTES)
UA_SHIM_ADD(View, UA_NODECLASS_VIEW, UA_ViewAttributes, UA_TYPES_VIEWATTRIBUTES)
#define UA_SHIM_ADD_T(NAME, CLASS, ATTR, TYPE)                                                      \
    static inline UA_StatusCode UA_Server_add##NAME##Node(UA_Server *server, const UA_NodeId id,    \
        const UA_NodeId parent, const UA_NodeId refType, const UA_QualifiedName bn,                 \
        const UA_NodeId typeDef, const ATTR attr, void *ctx, UA_NodeId *out) {                      \
        return __UA_Server_addNode(server, CLASS, &id, &parent, &refType, bn, &typeDef, &attr, &UA_TYPES[TYPE], ctx, out); \
    }
UA_SHIM_ADD_T(Object, UA_NODECLASS_OBJECT, UA_ObjectAttributes, UA_TYPES_OBJECTATTRIBUTES)
UA_SHIM_ADD_T(Variable, UA_NODECLASS_VARIABLE, UA_VariableAttributes, UA_TYPES_VARIABLEATTRIBUTES)
UA_SHIM_ADD_T(VariableType, UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes, UA_TYPES_VARIABLETYPEATTRIBUTES)
static inline UA_StatusCode UA_Server_addMethodNode(UA_Server *server, const UA_NodeId id,
    const UA_NodeId parent, const UA_NodeId refType, const UA_QualifiedName bn, const UA_MethodAttributes attr,
    UA_MethodCallback method, size_t inSize, const UA_Argument *in, size_t outSize, const UA_Argument *outArgs,
    void *ctx, UA_NodeId *out) {
    UA_NodeId n; memset(&n, 0, sizeof(n));
    (void)method; (void)inSize; (void)in; (void)outSize; (void)outArgs;
    return __UA_Server_addNode(server, UA_NODECLASS_METHOD, &id, &parent, &refType, bn, &n, &attr, &UA_TYPES[UA_TYPES_METHODATTRIBUTES], ctx, out);
}
UA_StatusCode UA_Server_addReference(UA_Server *server, const UA_NodeId sourceId, const UA_NodeId refTypeId,
    const UA_ExpandedNodeId targetId, UA_Boolean isForward);
UA_StatusCode UA_Server_deleteReference(UA_Server *server, const UA_NodeId sourceNodeId, const UA_NodeId referenceTypeId,
    UA_Boolean isForward, const UA_ExpandedNodeId targetNodeId, UA_Boolean deleteBidirectional);
UA_StatusCode UA_Server_deleteNode(UA_Server *server, const UA_NodeId nodeId, UA_Boolean deleteReferences);
UA_StatusCode UA_Server_readNodeClass(UA_Server *server, const UA_NodeId nodeId, UA_NodeClass *out);
UA_StatusCode UA_Server_readNodeId(UA_Server *server, const UA_NodeId nodeId, UA_NodeId *out);
UA_StatusCode UA_Server_readBrowseName(UA_Server *server, const UA_NodeId nodeId, UA_QualifiedName *out);
UA_StatusCode UA_Server_readIsAbstract(UA_Server *server, const UA_NodeId nodeId, UA_Boolean *out);
UA_StatusCode UA_Server_readValue(UA_Server *server, const UA_NodeId nodeId, UA_Variant *out);
UA_StatusCode UA_Server_writeValue(UA_Server *server, const UA_NodeId nodeId, const UA_Variant value);
UA_StatusCode UA_Server_setNodeContext(UA_Server *server, UA_NodeId nodeId, void *nodeContext);
UA_StatusCode UA_Server_getNodeContext(UA_Server *server, UA_NodeId nodeId, void **nodeContext);
const UA_DataType *UA_Server_findDataType(UA_Server *server, const UA_NodeId *typeId);
#ifdef __cplusplus
}
#endif
#endif
