From f6250cfda6646edb290256a5b81da17974d6f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 01/55] fix: report truncated files, read errors and late parse
 errors, free the parser on errors

---
 src/Parser.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..2a80d2e 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,17 +46,27 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
-    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
+    if (!ctxt)
     {
-        if (xmlParseChunk(ctxt, chars, res, 0))
-        {
-            xmlParserError(ctxt, "xmlParseChunk");
-            return 1;
-        }
+        return 1;
+    }
+    int error = 0;
+    while (!error && (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
+    {
+        error = xmlParseChunk(ctxt, chars, res, 0);
+    }
+    // the document has to be complete, this is detected when the parser is
+    // told that there is no more data
+    if (!error && !ferror(file))
+    {
+        error = xmlParseChunk(ctxt, chars, 0, 1);
+    }
+    if (error)
+    {
+        xmlParserError(ctxt, "xmlParseChunk");
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
-    return 0;
+    return error || ferror(file);
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From f8c8b7c80ac1ad8ca0325f2e66052cb172fa4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 02/55] fix: deliver ampersands in attribute values unescaped

---
 src/Parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index 2a80d2e..ae84011 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -50,6 +50,8 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     {
         return 1;
     }
+    // otherwise "&amp;" in attribute values is handed out as "&#38;"
+    xmlCtxtUseOptions(ctxt, XML_PARSE_NOENT);
     int error = 0;
     while (!error && (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
-- 
2.43.0


From 91a5c05ce5884f2cbbdc1e3e1bddb06af8bb2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 03/55] fix: CharArenaAllocator_new returns NULL if there is no
 memory for the first region

---
 src/CharAllocator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CharAllocator.c b/src/CharAllocator.c
index a378ca4..3b75a9d 100644
--- a/src/CharAllocator.c
+++ b/src/CharAllocator.c
@@ -55,6 +55,11 @@ CharArenaAllocator *CharArenaAllocator_new(size_t initialSize)
     }
     arena->initialSize = initialSize;
     arena->current = Region_new(arena->initialSize);
+    if(!arena->current)
+    {
+        free(arena);
+        return NULL;
+    }
     return arena;
 }
 
-- 
2.43.0


From 4aa7e143b004f8d2b196ea5d1a52585a60cbc2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 04/55] fix: keep browse names with a colon that does not
 follow a namespace index

---
 src/Nodeset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..592066e 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -129,8 +129,9 @@ NL_BrowseName extractBrowseName(const NamespaceList *namespaces, char *s)
     bn.nsIdx = 0;
     bn.name = NULL;
     if (!s) return bn;
-    char *bnName = strchr(s, ':');
-    if (bnName == NULL)
+    // only digits in front of the colon are a namespace index
+    char *bnName = s + strspn(s, "0123456789");
+    if (bnName == s || *bnName != ':')
     {
         bn.name = s;
         return bn;
-- 
2.43.0


From 5ecf323649eff55c67de7e2837809f326aacaa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 05/55] fix: aliases: any number of them, own copies of their
 NodeIds, no crash without a name

---
 src/AliasList.c | 20 +++++++++++++++++---
 src/Nodeset.c   |  9 ++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..440aaaf 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -9,12 +9,14 @@
 #include <stdlib.h>
 #include <string.h>
 
+// the list grows by this number of entries
 #define MAX_ALIAS 300
 
 struct AliasList
 {
     Alias *data;
     size_t size;
+    size_t capacity;
 };
 
 AliasList *AliasList_new(void)
@@ -30,14 +32,22 @@ AliasList *AliasList_new(void)
         free(list);
         return NULL;
     }
+    list->capacity = MAX_ALIAS;
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    if(list->size >= list->capacity)
     {
-        return NULL;
+        Alias *data = (Alias *)realloc(list->data, (list->capacity + MAX_ALIAS) *
+                                                       sizeof(Alias));
+        if(!data)
+        {
+            return NULL;
+        }
+        list->data = data;
+        list->capacity += MAX_ALIAS;
     }
     list->data[list->size].name = name;
     UA_NodeId_init(&list->data[list->size].id);
@@ -51,7 +61,7 @@ const UA_NodeId *
         return NULL;
 
     for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
-        if (!strcmp(name, alias->name))
+        if (alias->name && !strcmp(name, alias->name))
             return &alias->id;
     }
     return NULL;
@@ -59,6 +69,10 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
+    for(size_t i = 0; i < list->size; i++)
+    {
+        UA_NodeId_clear(&list->data[i].id);
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 592066e..830c367 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -151,7 +151,9 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
@@ -484,6 +486,11 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    if (!alias)
+    {
+        return;
+    }
+    UA_NodeId_clear(&alias->id);
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
 
-- 
2.43.0


From 45bbea83aca62a200103367a5a9c7b11325fe55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 06/55] fix: release everything a node owns when it is deleted,
 initialise definition fields

---
 src/nodes/DataTypeNode.c | 12 +++++++++++-
 src/nodes/Node.c         | 19 +++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..0a7a9e5 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -18,11 +18,16 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
     {
         return NULL;
     }
-    return &definition->fields[definition->fieldCnt - 1];
+    NL_DataTypeDefinitionField *field =
+        &definition->fields[definition->fieldCnt - 1];
+    memset(field, 0, sizeof(NL_DataTypeDefinitionField));
+    return field;
 }
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
 {
+    // a node has one definition, a further one replaces it
+    DataTypeNode_clear(node);
     node->definition =
         (NL_DataTypeDefinition *)calloc(1, sizeof(NL_DataTypeDefinition));
     if (!node->definition)
@@ -41,7 +46,12 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
+    node->definition = NULL;
 }
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..90c0799 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -64,6 +64,14 @@ void Node_delete(NL_Node *node)
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
+    deleteRef(node->unknownRefs);
+    if (node->nodeClass == NODECLASS_VARIABLE ||
+        node->nodeClass == NODECLASS_OBJECT ||
+        node->nodeClass == NODECLASS_METHOD ||
+        node->nodeClass == NODECLASS_VIEW)
+    {
+        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
+    }
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,18 +79,21 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
-        UA_NodeId_clear(&varNode->parentNodeId);
+        deleteRef(varNode->refToTypeDef);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
         }
     }
+    if(node->nodeClass == NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
+    }
     if(node->nodeClass==NODECLASS_OBJECT)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
-        UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        deleteRef(objNode->refToTypeDef);
     }
     free(node);
 }
-- 
2.43.0


From ceb7e6f20b48dd1cddda726510a18ddca2b8d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 07/55] fix: free values that are replaced or belong to no
 variable, and nodes the parser did not finish

---
 src/NodesetLoader.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..760d9e6 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -10,6 +10,7 @@
 #include "Nodeset.h"
 #include "Parser.h"
 #include "Value.h"
+#include "nodes/Node.h"
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
@@ -345,6 +346,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         break;
     case PARSER_STATE_NODE:
         Nodeset_newNodeFinish(pctx->nodeset, pctx->node);
+        pctx->node = NULL;
         pctx->state = PARSER_STATE_INIT;
         break;
     case PARSER_STATE_DISPLAYNAME:
@@ -367,7 +369,15 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
-                ((NL_VariableNode *)pctx->node)->value = pctx->val;
+            {
+                NL_VariableNode *varNode = (NL_VariableNode *)pctx->node;
+                if(varNode->value)
+                    Value_delete(varNode->value);
+                varNode->value = pctx->val;
+            }
+            else
+                Value_delete(pctx->val);
+            pctx->val = NULL;
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -502,6 +512,15 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         retStatus = false;
     }
     Parser_delete(parser);
+    // the parser stopped in the middle of a value or node
+    if (ctx->val)
+    {
+        Value_delete(ctx->val);
+    }
+    if (ctx->node)
+    {
+        Node_delete(ctx->node);
+    }
 
 cleanup:
     free(ctx);
-- 
2.43.0


From 7cc9aff352edb1cd9c80d11da45f2bdd5753af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 08/55] fix: reference types are kept per loader, in any
 number, and include all hierarchical types of namespace 0

---
 src/InternalRefService.c | 173 ++++++++++++---------------------------
 1 file changed, 54 insertions(+), 119 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..d66f59f 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -13,125 +13,54 @@
 struct InternalRefService
 {
     size_t hierachicalRefsSize;
-    NL_ReferenceTypeNode *hierachicalRefs;
+    UA_NodeId *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
 
 typedef struct InternalRefService InternalRefService;
 
-#define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {35}},
-     {0, "Organizes"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL,
-    },
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {36}},
-     {0, "HasEventSource"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {48}},
-     {0, "HasNotifier"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {44}},
-     {0, "Aggregates"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {45}},
-     {0, "HasSubtype"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {47}},
-     {0, "HasComponent"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {46}},
-     {0, "HasProperty"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {38}},
-     {0, "HasEncoding"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {33}},
-     {0, "HierarchicalReferences"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
+// all hierachical reference types of namespace 0
+static const UA_UInt32 ns0HierachicalRefs[] = {
+    33,    // HierarchicalReferences
+    34,    // HasChild
+    35,    // Organizes
+    36,    // HasEventSource
+    38,    // HasEncoding, handled like a hierachical reference
+    44,    // Aggregates
+    45,    // HasSubtype
+    46,    // HasProperty
+    47,    // HasComponent
+    48,    // HasNotifier
+    49,    // HasOrderedComponent
+    56,    // HasHistoricalConfiguration
+    129,   // HasArgumentDescription
+    131,   // HasOptionalInputArgumentDescription
+    14476, // HasPubSubConnection
+    15112, // HasGuard
+    15296, // HasDataSetWriter
+    15297, // HasDataSetReader
+    16361, // HasAlarmSuppressionGroup
+    16362, // AlarmGroupMember
+    17604, // HasAddIn
+    18804, // HasWriterGroup
+    18805  // HasReaderGroup
 };
 
+static bool
+addHierachicalRef(InternalRefService *service, const UA_NodeId *id) {
+    UA_NodeId *refs = (UA_NodeId *)realloc(
+        service->hierachicalRefs,
+        (service->hierachicalRefsSize + 1) * sizeof(UA_NodeId));
+    if (!refs)
+        return false;
+    service->hierachicalRefs = refs;
+    if (UA_NodeId_copy(id, &refs[service->hierachicalRefsSize]) !=
+        UA_STATUSCODE_GOOD)
+        return false;
+    service->hierachicalRefsSize++;
+    return true;
+}
+
 static bool
 isRefNonHierachical(const InternalRefService *service,
                     const NL_Reference *ref) {
@@ -152,7 +81,7 @@ static bool
 isReferenceHierachical(const InternalRefService *service,
                        const NL_Reference *ref) {
     for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
+        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i]))
             return true;
     }
     return false;
@@ -168,12 +97,11 @@ static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
-    while (ref) {
+    while (ref && !isHierachical) {
         if (!ref->isForward) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-                if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
-                    service->hierachicalRefs[service->hierachicalRefsSize++] =
-                        *(NL_ReferenceTypeNode *)node;
+                if (UA_NodeId_equal(&service->hierachicalRefs[i], &ref->target)) {
+                    addHierachicalRef(service, &node->id);
                     isHierachical = true;
                     break;
                 }
@@ -194,8 +122,12 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    for (size_t i = 0;
+         i < sizeof(ns0HierachicalRefs) / sizeof(ns0HierachicalRefs[0]); i++)
+    {
+        UA_NodeId id = UA_NODEID_NUMERIC(0, ns0HierachicalRefs[i]);
+        addHierachicalRef(service, &id);
+    }
     service->nonHierachicalRefs = NodeContainer_new(100, false);
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
@@ -219,6 +151,9 @@ void InternalRefService_delete(NL_ReferenceService *refService)
 {
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
+    for (size_t i = 0; i < internalService->hierachicalRefsSize; i++)
+        UA_NodeId_clear(&internalService->hierachicalRefs[i]);
+    free(internalService->hierachicalRefs);
     NodeContainer_delete(internalService->nonHierachicalRefs);
     free(internalService);
     free(refService);
-- 
2.43.0


From 88767698aa7f8b8d33e11546375a5cb348960847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 09/55] fix: nodes are owned by the nodeset from the start, so
 that unsorted nodes are released, too

---
 src/Nodeset.c | 20 ++++++++++++--------
 src/Nodeset.h |  2 ++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 830c367..0e4638a 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -168,14 +168,15 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->aliasList = AliasList_new();
     nodeset->namespaces = NamespaceList_new(nsCallback);
     nodeset->charArena = CharArenaAllocator_new(1024 * 1024);
-    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, true);
-    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
+    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, false);
+    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
+    nodeset->allNodes = NodeContainer_new(10000, true);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refService = refService;
@@ -277,6 +278,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     {
         NodeContainer_delete(nodeset->nodes[cnt]);
     }
+    NodeContainer_delete(nodeset->allNodes);
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
     NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
     NamespaceList_delete(nodeset->namespaces);
@@ -515,6 +517,7 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
         }
         else
         {
+            NodeContainer_add(nodeset->allNodes, node);
             if (node->nodeClass == NODECLASS_REFERENCETYPE)
             {
                 nodeset->refService->addNewReferenceType(
@@ -524,6 +527,7 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
     }
     else
     {
+        NodeContainer_add(nodeset->allNodes, node);
         if (node->nodeClass == NODECLASS_REFERENCETYPE)
         {
             NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..87e11ee 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -30,6 +30,8 @@ struct Nodeset
     CharArenaAllocator *charArena;
     struct AliasList *aliasList;
     struct NodeContainer *nodes[NL_NODECLASS_COUNT];
+    // owns all nodes, independent of being sorted into the containers above
+    struct NodeContainer *allNodes;
     struct NamespaceList *namespaces;
     struct SortContext *sortCtx;
     NL_BiDirectionalReference *hasEncodingRefs;
-- 
2.43.0


From 1cac2f35c76de25f687fce1fea267749cbba04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 10/55] fix: sorting can be repeated, also after further
 imports

---
 src/Nodeset.c |  5 +++++
 src/Sort.c    | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 0e4638a..bf99335 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -266,6 +266,11 @@ bool Nodeset_sort(Nodeset *nodeset)
         Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
     }
 
+    // all nodes are sorted again, if there was a sort before
+    for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
+    {
+        nodeset->nodes[cnt]->size = 0;
+    }
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                       nodeset->logger);
 }
diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..e0b8c53 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -32,6 +32,9 @@ struct S_Node
     struct S_Node *qlink;
     struct S_Edge *edges;
     size_t edgeCount;
+    // state of the current run of Sort_start
+    size_t openEdges;
+    bool done;
     NL_Node *data;
 };
 
@@ -192,15 +195,18 @@ record_relation(S_Node *from, S_Node *to) {
     from->edges = e;
 }
 
-static bool count_items(SortContext *ctx, S_Node *unused)
+static bool count_items(SortContext *ctx, S_Node *k)
 {
     ctx->keyCnt++;
+    k->openEdges = k->edgeCount;
+    k->done = false;
+    k->qlink = NULL;
     return false;
 }
 
 static bool scan_zeros(SortContext *ctx, S_Node *k)
 {
-    if (k->edgeCount == 0 && k->id)
+    if (k->openEdges == 0 && !k->done)
     {
         if (ctx->head == NULL)
             ctx->head = k;
@@ -350,6 +356,9 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    ctx->keyCnt = 0;
+    ctx->head = NULL;
+    ctx->zeros = NULL;
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
@@ -365,13 +374,13 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 callback(nodeset, ctx->head->data);
             }
 
-            ctx->head->id = NULL;
+            ctx->head->done = true;
             ctx->keyCnt--;
 
             while (e)
             {
-                e->dest->edgeCount--;
-                if (e->dest->edgeCount == 0)
+                e->dest->openEdges--;
+                if (e->dest->openEdges == 0)
                 {
                     ctx->zeros->qlink = e->dest;
                     ctx->zeros = e->dest;
-- 
2.43.0


From a21dbd90599e27be2711335c732a03c5939ac992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 11/55] fix: ParentNodeId: same reference for every document
 order, regarded when sorting

---
 src/Sort.c | 83 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index e0b8c53..4e76ed4 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -285,6 +285,13 @@ void Sort_cleanup(SortContext *ctx)
     free(ctx);
 }
 
+static bool hasParentNodeId(const NL_Node *data)
+{
+    return NodesetLoader_isInstanceNode(data) &&
+           !UA_NodeId_equal(&((const NL_InstanceNode *)data)->parentNodeId,
+                            &UA_NODEID_NULL);
+}
+
 bool Sort_addNode(SortContext *ctx, NL_Node *data) {
     S_Node *j = NULL;
     // add node, no matter if there are references on it
@@ -309,48 +316,47 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
             hierachicalRefRecorded = true;
         }
     }
-    // add reference generated by ParentNodeId, if dont have already a hierachical ref
-    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {
-        NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
-        if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
-        {
-            return true;
-        }
+    // the parent is needed for the reference generated by ParentNodeId
+    if (!hierachicalRefRecorded && hasParentNodeId(data)) {
+        search_node(ctx->root1, &((NL_InstanceNode *)data)->parentNodeId);
+    }
+    return true;
+}
 
-        S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
-        
-        //to we already have a reference for the node parentNode?
-        //parent references
-        bool refTypeFound = false;
-        if (k->data) {
-            NL_Reference *r = k->data->hierachicalRefs;
-            while (r) {
-                if (UA_NodeId_equal(&r->target, &data->id)) 
-                {
-                    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-                    newRef->isForward = !r->isForward;
-                    UA_NodeId_copy(&k->data->id, &newRef->target);
-                    UA_NodeId_copy(&r->refType, &newRef->refType);
-                    newRef->next = data->hierachicalRefs;
-                    data->hierachicalRefs = newRef;
-                    refTypeFound = true;
-                    break;
-                }
-                r = r->next;
+// add reference generated by ParentNodeId, if dont have already a hierachical
+// ref. All nodes have to be added before, the reference of the parent decides
+// on the reference type.
+static bool add_parent_reference(SortContext *ctx, S_Node *j)
+{
+    NL_Node *data = j->data;
+    if (!data || data->hierachicalRefs || !hasParentNodeId(data))
+        return false;
+
+    NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
+    S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
+    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+    if (!newRef)
+        return false;
+    newRef->isForward = false;
+    UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
+    newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
+    //to we already have a reference for the node parentNode?
+    //parent references
+    if (k->data) {
+        NL_Reference *r = k->data->hierachicalRefs;
+        while (r) {
+            if (r->isForward && UA_NodeId_equal(&r->target, &data->id))
+            {
+                UA_NodeId_copy(&r->refType, &newRef->refType);
+                break;
             }
-        }
-        if(!refTypeFound)
-        {
-            NL_Reference *newRef =
-            (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            newRef->isForward = false;
-            UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
-            newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
-            newRef->next = data->hierachicalRefs;
-            data->hierachicalRefs = newRef;
+            r = r->next;
         }
     }
-    return true;
+    newRef->next = data->hierachicalRefs;
+    data->hierachicalRefs = newRef;
+    record_relation(k, j);
+    return false;
 }
 
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
@@ -359,6 +365,7 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
     ctx->keyCnt = 0;
     ctx->head = NULL;
     ctx->zeros = NULL;
+    walk_tree(ctx, ctx->root1, add_parent_reference);
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
-- 
2.43.0


From ac7fb304795a4d1488cf721a2b1e3b6e8090152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 12/55] fix: classify references by reference types in any
 document order, never loop on undefined ones

---
 src/Nodeset.c | 225 +++++++++++++++++++++++++++++++++++++-------------
 src/Nodeset.h |   4 +-
 2 files changed, 171 insertions(+), 58 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index bf99335..3dfd445 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -178,7 +178,7 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
     nodeset->allNodes = NodeContainer_new(10000, true);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
-    nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
+    nodeset->pendingRefTypes = NodeContainer_new(100, false);
     nodeset->refService = refService;
     nodeset->sortCtx = Sort_init();
     nodeset->logger = logger;
@@ -198,73 +198,199 @@ static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
 
 static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
 {
-    while (node->unknownRefs)
+    NL_Reference **unknownRef = &node->unknownRefs;
+    while (*unknownRef)
     {
-        NL_Reference *nextUnknown = node->unknownRefs->next;
+        NL_Reference *ref = *unknownRef;
         if (nodeset->refService->isHierachicalRef(nodeset->refService->context,
-                                                  node->unknownRefs))
+                                                  ref))
         {
-            insertElementAtFront(&node->hierachicalRefs, node->unknownRefs);
-            node->unknownRefs = nextUnknown;
+            *unknownRef = ref->next;
+            insertElementAtFront(&node->hierachicalRefs, ref);
             continue;
         }
         if (nodeset->refService->isNonHierachicalRef(
-                nodeset->refService->context, node->unknownRefs))
+                nodeset->refService->context, ref))
         {
-            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);
-            node->unknownRefs = nextUnknown;
+            *unknownRef = ref->next;
+            insertElementAtFront(&node->nonHierachicalRefs, ref);
             continue;
         }
-        return false;
+        unknownRef = &ref->next;
+    }
+    return !node->unknownRefs;
+}
+
+static bool addToSort(Nodeset *nodeset, NL_Node *node)
+{
+    if (Sort_addNode(nodeset->sortCtx, node))
+    {
+        return true;
+    }
+    if (nodeset->logger)
+    {
+        nodeset->logger->log(
+            nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+            "node was not added to sorting algorithm, already exists");
+    }
+    return false;
+}
+
+static bool isPendingRefType(const Nodeset *nodeset, const UA_NodeId *id)
+{
+    for (size_t i = 0; i < nodeset->pendingRefTypes->size; i++)
+    {
+        if (UA_NodeId_equal(&nodeset->pendingRefTypes->nodes[i]->id, id))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+// The reference service classifies a new reference type by its supertypes, they
+// have to be known to the service before.
+static bool areSupertypesKnown(const Nodeset *nodeset, const NL_Node *refType,
+                               bool allImported)
+{
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, 45);
+    for (const NL_Reference *r = refType->hierachicalRefs; r; r = r->next)
+    {
+        if (r->isForward || !UA_NodeId_equal(&r->refType, &hasSubtype))
+        {
+            continue;
+        }
+        if (allImported)
+        {
+            // a supertype that is not part of the files is no reason to wait
+            if (isPendingRefType(nodeset, &r->target) &&
+                !UA_NodeId_equal(&r->target, &refType->id))
+            {
+                return false;
+            }
+            continue;
+        }
+        NL_Reference superRef = {0};
+        superRef.refType = r->target;
+        if (!nodeset->refService->isHierachicalRef(nodeset->refService->context,
+                                                   &superRef) &&
+            !nodeset->refService->isNonHierachicalRef(
+                nodeset->refService->context, &superRef))
+        {
+            return false;
+        }
     }
     return true;
 }
 
-static void lookupReferenceTypes(Nodeset *nodeset)
+static void registerPendingRefType(Nodeset *nodeset, size_t idx)
+{
+    struct NodeContainer *pending = nodeset->pendingRefTypes;
+    NL_Node *refType = pending->nodes[idx];
+    pending->size--;
+    memmove(&pending->nodes[idx], &pending->nodes[idx + 1],
+            (pending->size - idx) * sizeof(NL_Node *));
+    nodeset->refService->addNewReferenceType(nodeset->refService->context,
+                                             (NL_ReferenceTypeNode *)refType);
+}
+
+static void registerReferenceTypes(Nodeset *nodeset, bool allImported)
 {
-    bool allRefTypesKnown = false;
-    while (!allRefTypesKnown)
+    struct NodeContainer *pending = nodeset->pendingRefTypes;
+    bool progress = true;
+    while (progress && pending->size > 0)
     {
-        allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+        progress = false;
+        for (size_t i = pending->size; i > 0; i--)
         {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+            if (areSupertypesKnown(nodeset, pending->nodes[i - 1], allImported))
+            {
+                registerPendingRefType(nodeset, i - 1);
+                progress = true;
+            }
+        }
+        if (!progress && allImported)
+        {
+            // only subtypes of each other are left
+            registerPendingRefType(nodeset, 0);
+            progress = true;
         }
     }
+}
 
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+static bool lookupAllUnknownReferences(Nodeset *nodeset)
+{
+    bool allKnown = true;
+    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
     {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
+        if (!lookupUnknownReferences(nodeset,
+                                     nodeset->nodesWithUnknownRefs->nodes[i]))
+        {
+            allKnown = false;
+        }
     }
+    return allKnown;
 }
 
-bool Nodeset_sort(Nodeset *nodeset)
+// a reference type is not defined in any of the files
+static bool isUnresolvable(const Nodeset *nodeset, const NL_Node *node)
+{
+    for (const NL_Reference *r = node->unknownRefs; r; r = r->next)
+    {
+        if (!isPendingRefType(nodeset, &r->refType))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+static bool reportUnresolvedNodes(Nodeset *nodeset)
 {
-    // first we have to figure out, if there are reference types, for which we
-    // cannot state if they are hierachical or nonhierachical
-    lookupReferenceTypes(nodeset);
-    // all hierachical references of a node should be known at this point
-    // if there are nodes with unknown references, the import will be aborted
     for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
     {
-        bool result = lookupUnknownReferences(
-            nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
-        if (!result)
+        NL_Node *node = nodeset->nodesWithUnknownRefs->nodes[i];
+        if (isUnresolvable(nodeset, node))
         {
             UA_String nodeIdStr = {0};
-            UA_NodeId_print(&nodeset->nodesWithUnknownRefs->nodes[i]->id,
-                            &nodeIdStr);
+            UA_NodeId_print(&node->id, &nodeIdStr);
             nodeset->logger->log(
                 nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                 "node with unresolved reference(s): NodeId(%.*s)",
                 (int)nodeIdStr.length, (char *)nodeIdStr.data);
             UA_String_clear(&nodeIdStr);
+            return true;
+        }
+    }
+    return false;
+}
+
+bool Nodeset_sort(Nodeset *nodeset)
+{
+    // first we have to figure out, if there are reference types, for which we
+    // cannot state if they are hierachical or nonhierachical
+    registerReferenceTypes(nodeset, false);
+    // all hierachical references of a node should be known at this point
+    // if there are nodes with unknown references, the import will be aborted
+    if (!lookupAllUnknownReferences(nodeset))
+    {
+        if (reportUnresolvedNodes(nodeset))
+        {
+            return false;
+        }
+        registerReferenceTypes(nodeset, true);
+        if (!lookupAllUnknownReferences(nodeset))
+        {
+            reportUnresolvedNodes(nodeset);
             return false;
         }
-        Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
     }
+    registerReferenceTypes(nodeset, true);
+    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
+    {
+        addToSort(nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
+    }
+    nodeset->nodesWithUnknownRefs->size = 0;
 
     // all nodes are sorted again, if there was a sort before
     for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
@@ -285,7 +411,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     }
     NodeContainer_delete(nodeset->allNodes);
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
-    NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
+    NodeContainer_delete(nodeset->pendingRefTypes);
     NamespaceList_delete(nodeset->namespaces);
     Sort_cleanup(nodeset->sortCtx);
     NL_BiDirectionalReference *ref = nodeset->hasEncodingRefs;
@@ -511,36 +637,21 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
     if (!node->unknownRefs)
     {
-        if(!Sort_addNode(nodeset->sortCtx, node))
+        if(!addToSort(nodeset, node))
         {
-            if (nodeset->logger)
-            {
-                nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                            "node was not added to sorting algorithm, already exists");
-            }
             Node_delete(node);
-        }
-        else
-        {
-            NodeContainer_add(nodeset->allNodes, node);
-            if (node->nodeClass == NODECLASS_REFERENCETYPE)
-            {
-                nodeset->refService->addNewReferenceType(
-                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);
-            }
+            return;
         }
     }
     else
     {
-        NodeContainer_add(nodeset->allNodes, node);
-        if (node->nodeClass == NODECLASS_REFERENCETYPE)
-        {
-            NodeContainer_add(nodeset->refTypesWithUnknownRefs, node);
-        }
-        else
-        {
-            NodeContainer_add(nodeset->nodesWithUnknownRefs, node);
-        }
+        NodeContainer_add(nodeset->nodesWithUnknownRefs, node);
+    }
+    NodeContainer_add(nodeset->allNodes, node);
+    if (node->nodeClass == NODECLASS_REFERENCETYPE)
+    {
+        NodeContainer_add(nodeset->pendingRefTypes, node);
+        registerReferenceTypes(nodeset, false);
     }
 }
 
diff --git a/src/Nodeset.h b/src/Nodeset.h
index 87e11ee..40d3d62 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -37,7 +37,9 @@ struct Nodeset
     NL_BiDirectionalReference *hasEncodingRefs;
     NodesetLoader_Logger* logger;
     struct NodeContainer *nodesWithUnknownRefs;
-    struct NodeContainer *refTypesWithUnknownRefs;
+    // reference types the reference service was not told about, because a
+    // supertype is not known yet
+    struct NodeContainer *pendingRefTypes;
     NL_ReferenceService* refService;
 };
 
-- 
2.43.0


From 38e5c232a2245db2f149f6dba2544072d378e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 13/55] fix: every file has its own namespace indexes, aliases
 and addNamespace callback

---
 src/Nodeset.c       | 22 +++++++++++++++++++++-
 src/Nodeset.h       |  2 ++
 src/NodesetLoader.c |  8 ++++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 3dfd445..c1e7150 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -185,6 +185,25 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    struct NamespaceList *namespaces = NamespaceList_new(nsCallback);
+    struct AliasList *aliasList = AliasList_new();
+    if (!namespaces || !aliasList)
+    {
+        if (namespaces)
+            NamespaceList_delete(namespaces);
+        if (aliasList)
+            AliasList_delete(aliasList);
+        return false;
+    }
+    NamespaceList_delete(nodeset->namespaces);
+    nodeset->namespaces = namespaces;
+    AliasList_delete(nodeset->aliasList);
+    nodeset->aliasList = aliasList;
+    return true;
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
@@ -630,7 +649,8 @@ void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
                                 char *namespaceUri)
 {
-    NamespaceList_newNamespace(nodeset->namespaces, userContext, namespaceUri);
+    NamespaceList_newNamespace(nodeset->namespaces, userContext,
+                               namespaceUri ? namespaceUri : "");
 }
 
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
diff --git a/src/Nodeset.h b/src/Nodeset.h
index 40d3d62..0411fc0 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -44,6 +44,8 @@ struct Nodeset
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
+// namespace indexes and aliases are local to a file
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 void Nodeset_cleanup(Nodeset *nodeset);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 760d9e6..7f2df07 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -477,6 +477,14 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
                                       loader->refService);
     }
 
+    else if (!Nodeset_startFile(loader->nodeset, fileHandler->addNamespace))
+    {
+        loader->logger->log(loader->logger->context,
+                            NODESETLOADER_LOGLEVEL_ERROR,
+                            "NodesetLoader: out of memory");
+        return false;
+    }
+
     TParserCtx *ctx = NULL;
     FILE *f = fopen(fileHandler->file, "r");
 
-- 
2.43.0


From 574a75e7cf6a939976b42a49a8e400cd848a9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 14/55] fix: a loader can be used and deleted without an
 imported file

---
 src/NodesetLoader.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 7f2df07..d122aa0 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -541,6 +541,11 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    // nothing imported, nothing to sort
+    if (!loader->nodeset)
+    {
+        return true;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -575,7 +580,10 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
@@ -590,6 +598,10 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return NULL;
+    }
     return Nodeset_getBiDirectionalRefs(loader->nodeset);
 }
 
@@ -597,5 +609,9 @@ size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
-- 
2.43.0


From ac49bef31c600b308f5e6d63a9cffafd560773f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 15/55] fix: the internal logger prints the arguments of a
 message

---
 src/PrintfLogger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PrintfLogger.c b/src/PrintfLogger.c
index 6acf9c3..a80528a 100644
--- a/src/PrintfLogger.c
+++ b/src/PrintfLogger.c
@@ -17,8 +17,10 @@ static void logStdOut(void *context, enum NodesetLoader_LogLevel level,
 {
     va_list vl;
     va_start(vl, message);
+    printf("NODESETLOADER: %s : ", logLevel[level]);
+    vprintf(message, vl);
+    printf("\n");
     va_end(vl);
-    printf("NODESETLOADER: %s : %s\n", logLevel[level], message);
 }
 
 NodesetLoader_Logger *InternalLogger_new(void)
-- 
2.43.0


From 49c2437920c65cc3d0989d62b521e30633d59411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 16/55] fix: no crash on a Definition outside of data types and
 on nodes without BrowseName

---
 src/Nodeset.c       | 1 +
 src/NodesetLoader.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index c1e7150..d6fbc75 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -684,6 +684,7 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index d122aa0..7890584 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -221,7 +221,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->state = PARSER_STATE_EXTENSIONS;
         }
-        else if (!strcmp(localname, "Definition"))
+        else if (!strcmp(localname, "Definition") &&
+                 pctx->nodeClass == NODECLASS_DATATYPE)
         {
             Nodeset_addDataTypeDefinition(pctx->nodeset, pctx->node, nb_attributes,
                                      attributes);
-- 
2.43.0


From 370e891867ec22246d7325bfd0355a3e45d0ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 17/55] fix: elements named Extension inside of an extension do
 not end it

---
 src/NodesetLoader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 7890584..1f0a07e 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -282,6 +282,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         }
         break;
     case PARSER_STATE_EXTENSION:
+        // elements inside can have any name, "Extension" as well
+        pctx->unknown_depth++;
         if (pctx->extIf)
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
@@ -388,7 +390,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -399,6 +401,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         else
         {
+            pctx->unknown_depth--;
             if (pctx->extIf)
             {
                 pctx->extIf->end(pctx->extensionData, localname,
-- 
2.43.0


From 37f042f4e4040218a193867400563696bc815758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 18/55] fix: booleans may be written as 1 and 0

---
 src/Nodeset.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index d6fbc75..74472ef 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -574,12 +574,18 @@ NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
     return node;
 }
 
+// xs:boolean
+static bool isTrue(const char *value)
+{
+    return !strcmp("true", value) || !strcmp("1", value);
+}
+
 NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
+    if (isTrue(getAttributeValue(nodeset, &attrIsForward, attributes,
+                                 attributeSize)))
     {
         newRef->isForward = true;
     }
@@ -705,11 +711,11 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -743,7 +749,7 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
             nodeset, &attrValueRank, attributes, attributeSize));
         char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                              attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional = isTrue(isOptional);
     }
 }
 
-- 
2.43.0


From 3fa167bc723e7efa0976a0ee537fb1c574773dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 19/55] fix: do not lose (and leak) a type definition reference
 when there is a second one

---
 src/Nodeset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 74472ef..669a86d 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -602,6 +602,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_VariableNode *)node)->refToTypeDef;
         ((NL_VariableNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -610,6 +611,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
         ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
-- 
2.43.0


From a47725aa07cbdf302ab377c6b3bffa2516a2fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 20/55] fix: only the supertype decides whether a reference
 type is hierarchical

---
 src/InternalRefService.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index d66f59f..5afc931 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -95,10 +95,11 @@ isRefTypeDef(const InternalRefService* service, const NL_Reference* ref) {
 
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
+    UA_NodeId hasSubtypeId = UA_NODEID_NUMERIC(0, 45);
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
     while (ref && !isHierachical) {
-        if (!ref->isForward) {
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtypeId)) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs[i], &ref->target)) {
                     addHierachicalRef(service, &node->id);
-- 
2.43.0


From c81b26a436071f3f7ec2450bb7ed117abfd3128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 21/55] fix: arena requests of impossible size return NULL

---
 src/CharAllocator.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/CharAllocator.c b/src/CharAllocator.c
index 3b75a9d..2b6ca4b 100644
--- a/src/CharAllocator.c
+++ b/src/CharAllocator.c
@@ -6,6 +6,7 @@
  */
 
 #include "CharAllocator.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -68,14 +69,15 @@ static size_t getRegionSize(size_t requested, size_t initialArenaSize)
     size_t regionSize = initialArenaSize;
     if (requested > initialArenaSize)
     {
-        regionSize = requested * 2;
+        // no overflow, the allocation of the region will fail
+        regionSize = requested <= SIZE_MAX / 2 ? requested * 2 : SIZE_MAX;
     }
     return regionSize;
 }
 
 char *CharArenaAllocator_malloc(CharArenaAllocator *arena, size_t size)
 {
-    if ((arena->current->size + size) > arena->current->capacity)
+    if (size > arena->current->capacity - arena->current->size)
     {        
         struct Region *newRegion = Region_new(getRegionSize(size, arena->initialSize));
         if (!newRegion)
@@ -93,8 +95,12 @@ char *CharArenaAllocator_malloc(CharArenaAllocator *arena, size_t size)
 
 char *CharArenaAllocator_realloc(CharArenaAllocator *arena, size_t size)
 {
-    if ((arena->current->size + size) > arena->current->capacity)
+    if (size > arena->current->capacity - arena->current->size)
     {
+        if (size > SIZE_MAX / 4)
+        {
+            return NULL;
+        }
         // we also have to consider the size we have to transfer
         struct Region *newRegion =
             Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));
-- 
2.43.0


From 5d73f4a92fc23bc941f7d742885a12c03f9319d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 22/55] fix: values with several children neither leak nor
 crash

---
 src/Value.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Value.c b/src/Value.c
index c14153b..f630a4f 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -9,6 +9,8 @@
 #include <stdlib.h>
 #include <ctype.h>
 
+static void Data_clear(NL_Data *data);
+
 NL_Value *Value_new(const NL_Node *node)
 {
     NL_Value *newValue = (NL_Value *)calloc(1, sizeof(NL_Value));
@@ -100,6 +102,8 @@ void Value_start(NL_Value *val, const char *name)
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
+            // a body has one element, the last one counts
+            Data_clear(val->data);
             val->data = newData(name, DATATYPE_COMPLEX);
             val->ctx->currentData = val->data;
         }
@@ -170,7 +174,10 @@ void Value_end(NL_Value *val, const char *name, const char *value)
     case PARSERSTATE_EXTENSIONOBJECT:
         if (!strcmp(name, "ExtensionObject"))
         {
-            val->ctx->state = PARSERSTATE_INIT;
+            // either the next member of the list follows, or the value is
+            // complete
+            val->ctx->state =
+                val->isArray ? PARSERSTATE_LISTOF : PARSERSTATE_FINISHED;
         }
         break;
 
@@ -187,7 +194,7 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         // exit conditions
         if (!val->isExtensionObject && val->ctx->currentData == NULL)
         {
-            val->ctx->state = PARSERSTATE_INIT;
+            val->ctx->state = PARSERSTATE_FINISHED;
         }
         // extensionsobject
         if (val->isExtensionObject && !val->isArray &&
@@ -206,13 +213,14 @@ void Value_end(NL_Value *val, const char *name, const char *value)
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
         val->ctx->state = PARSERSTATE_EXTENSIONOBJECT;
         break;
-    case PARSERSTATE_FINISHED:
     case PARSERSTATE_LISTOF:
+        // end of the list
+        val->ctx->state = PARSERSTATE_FINISHED;
+        break;
+    case PARSERSTATE_FINISHED:
         break;
     }
 }
-static void Data_clear(NL_Data *data);
-
 static void PrimitiveData_clear(NL_Data *data)
 {
     // free(data);
-- 
2.43.0


From b60f1a9d6766c4da3c573a21805aebe70856d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 23/55] fix: release the entity declarations of a document

---
 src/Parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index ae84011..c02d3a0 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -67,6 +67,12 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     {
         xmlParserError(ctxt, "xmlParseChunk");
     }
+    // libxml2 keeps entity declarations in a document of its own
+    if (ctxt->myDoc)
+    {
+        xmlFreeDoc(ctxt->myDoc);
+        ctxt->myDoc = NULL;
+    }
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
     return error || ferror(file);
-- 
2.43.0


From 999dd009bfcd354f556419eb458f9d98d8ac6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 24/55] fix: backend: booleans may be written as 1 and 0

---
 backends/open62541/src/conversion.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..02ba19c 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,11 +33,10 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
-    {
-        return UA_FALSE;
-    }
-    return UA_TRUE;
+    // xs:boolean: true or 1, surrounded by white space
+    s += strspn(s, " \t\r\n");
+    size_t len = strcspn(s, " \t\r\n");
+    return (len == 4 && !strncmp(s, "true", len)) || (len == 1 && *s == '1');
 }
 
 static inline UA_NodeId extractNodeId(char *s)
-- 
2.43.0


From 3bb26ae6a1d9b783409973c66c720956d3f748b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 25/55] fix: backend: the NodeId of a parent data type outlives
 its browse result

---
 backends/open62541/src/import.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..244328a 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -28,14 +28,16 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     UA_BrowseDescription_init(&bd);
     bd.nodeId = id;
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
+    bd.referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
 
-    UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
-    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
+    UA_NodeId parentId = UA_NODEID_NULL;
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
+    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize > 0)
     {
-        return UA_NODEID_NULL;
+        // the caller releases the copy
+        UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
     UA_BrowseResult_clear(&br);
     return parentId;
 }
@@ -56,12 +58,16 @@ static bool isKnownParent(const UA_NodeId typeId)
     return false;
 }
 
+// returns the null NodeId (which is a known parent) if there is none
 static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
-    UA_NodeId current = dataTypeId;
+    UA_NodeId current = UA_NODEID_NULL;
+    UA_NodeId_copy(&dataTypeId, &current);
     while (!isKnownParent(current))
     {
-        current = getParentDataType(server, current);
+        UA_NodeId parent = getParentDataType(server, current);
+        UA_NodeId_clear(&current);
+        current = parent;
     }
     return current;
 }
-- 
2.43.0


From 323acea53690788c14734db0b691b2502f2f69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 26/55] fix: backend: variable types keep their array
 dimensions

---
 backends/open62541/src/import.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 244328a..886517d 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -349,21 +349,22 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
-    if (attr.valueRank >= 0)
+    UA_UInt32 *arrDims = NULL;
+    attr.arrayDimensionsSize =
+        getArrayDimensions(node->arrayDimensions, &arrDims);
+    if (attr.valueRank >= 0 && attr.arrayDimensionsSize == 0)
     {
-        if (!strcmp(node->arrayDimensions, ""))
-        {
-            attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
-            attr.arrayDimensions = &arrayDimensions[0];
-        }
+        attr.arrayDimensionsSize = 1;
+        arrDims = UA_UInt32_new();
     }
+    attr.arrayDimensions = arrDims;
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
-                            *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
-                            &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
-                            node->extension, NULL);
+    UA_StatusCode status = UA_Server_addNode_begin(
+        server, UA_NODECLASS_VARIABLETYPE, *id, *parentId, *parentReferenceId,
+        *qn, UA_NODEID_NULL, &attr, &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
+        node->extension, NULL);
+    UA_free(arrDims);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
-- 
2.43.0


From 6c283f6d0383a0d8191e96421426eda722e4f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 27/55] fix: reference types keep their IsAbstract attribute

---
 backends/open62541/src/import.c       | 1 +
 include/NodesetLoader/NodesetLoader.h | 1 +
 src/Nodeset.c                         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 886517d..285d91b 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -325,6 +325,7 @@ static UA_StatusCode handleReferenceTypeNode(const NL_ReferenceTypeNode *node,
                                     UA_Server *server)
 {
     UA_ReferenceTypeAttributes attr = UA_ReferenceTypeAttributes_default;
+    attr.isAbstract = isValTrue(node->isAbstract);
     attr.symmetric = isValTrue(node->symmetric);
     attr.displayName = *lt;
     attr.description = *description;
diff --git a/include/NodesetLoader/NodesetLoader.h b/include/NodesetLoader/NodesetLoader.h
index a1d5642..6b94228 100644
--- a/include/NodesetLoader/NodesetLoader.h
+++ b/include/NodesetLoader/NodesetLoader.h
@@ -230,6 +230,7 @@ struct NL_ReferenceTypeNode
     NL_NODE_ATTRIBUTES
     NL_LocalizedText inverseName;
     char *symmetric;
+    char *isAbstract;
 };
 typedef struct NL_ReferenceTypeNode NL_ReferenceTypeNode;
 
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 669a86d..2df126c 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -543,6 +543,8 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
     case NODECLASS_REFERENCETYPE:
         ((NL_ReferenceTypeNode *)node)->symmetric = getAttributeValue(
             nodeset, &attrSymmetric, attributes, attributeSize);
+        ((NL_ReferenceTypeNode *)node)->isAbstract = getAttributeValue(
+            nodeset, &attrIsAbstract, attributes, attributeSize);
         break;
     case NODECLASS_VIEW:
         ((NL_ViewNode *)node)->parentNodeId = extractNodedId(
-- 
2.43.0


From 2fb4daa5b2882bc2d0ba373d4d9c8b3c1e28777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 28/55] fix: backend: create nodes below their supertype or
 ParentNodeId with the reference they state

---
 backends/open62541/src/import.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 285d91b..a36bb6a 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -90,19 +90,30 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+// the reference to the parent: the supertype of a type, the reference to the
+// ParentNodeId of an instance, otherwise the first inverse reference
+static NL_Reference *getHierachicalInverseReference(const NL_Node *node, const UA_NodeId *parentId)
 {
-
-    NL_Reference *hierachicalRef = node->hierachicalRefs;
-    while (hierachicalRef)
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    const bool isInstance = NodesetLoader_isInstanceNode(node);
+    NL_Reference *first = NULL;
+    for (NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        if (!hierachicalRef->isForward)
+        if (ref->isForward)
+        {
+            continue;
+        }
+        if (isInstance ? UA_NodeId_equal(&ref->target, parentId)
+                       : UA_NodeId_equal(&ref->refType, &hasSubtype))
         {
-            return hierachicalRef;
+            return ref;
+        }
+        if (!first)
+        {
+            first = ref;
         }
-        hierachicalRef = hierachicalRef->next;
     }
-    return NULL;
+    return first;
 }
 
 static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
@@ -113,12 +124,16 @@ static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
     {
         parentId = ((const NL_InstanceNode*)node)->parentNodeId;
     }
-    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);
+    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node, &parentId);
     *parentRefId = getReferenceTypeId(ref);
     if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
     {
         parentId = getReferenceTarget(ref);
     }
+    else if (!ref)
+    {
+        *parentRefId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASCOMPONENT);
+    }
     return parentId;
 }
 
-- 
2.43.0


From e059a60cf3432b625444d11a99ea23452b04d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 29/55] fix: backend: encodings of data types are forward
 references with their own NodeIds

---
 backends/open62541/src/import.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index a36bb6a..c6f66f4 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -523,8 +523,10 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         if (UA_NodeId_equal(&r->source, &node->id))
         {
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            // the node owns its references
+            UA_NodeId_copy(&r->refType, &ref->refType);
+            UA_NodeId_copy(&r->target, &ref->target);
+            ref->isForward = true;
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 194240fba919554b866b2b0b6c32ad9a1db1822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:07 +0000
Subject: [PATCH 30/55] fix: backend: data types derived from abstract or
 missing types do not abort

---
 backends/open62541/src/DataTypeImporter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..60100ee 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -528,8 +528,12 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
                                const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
-
-    assert(parentType);
+    if (!parentType)
+    {
+        // abstract types (Number, Integer...) and missing supertypes are
+        // treated like in getDataType
+        parentType = &UA_TYPES[UA_TYPES_VARIANT];
+    }
 
     type->typeId = node->id;
     type->binaryEncodingId = parentType->binaryEncodingId;
-- 
2.43.0


From 40a62f6e183d21b3014300002dd741494a343486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 31/55] fix: backend: know all reference types of the server,
 not only the first 100 subtypes of a type

---
 backends/open62541/src/RefServiceImpl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..ecbb16c 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -50,7 +50,8 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    // 0: all results at once, without continuation points
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
-- 
2.43.0


From 0729e8ec3ff6c167277c99d8ae7952545191cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 32/55] fix: backend: cycles of HasSubtype references in the
 server neither hang nor crash a load

---
 backends/open62541/src/RefServiceImpl.c | 90 ++++++++++---------------
 backends/open62541/src/import.c         | 13 ++--
 2 files changed, 44 insertions(+), 59 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index ecbb16c..76ebbec 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -37,11 +37,36 @@ RefContainer_clear(RefContainer *c) {
 
 typedef struct RefServiceImpl RefServiceImpl;
 
-typedef void (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
+static bool
+isInContainer(const RefContainer *c, const UA_NodeId *refType)
+{
+    for (const UA_NodeId *id = c->ids; id != c->ids + c->size; id++)
+    {
+        if (UA_NodeId_equal(refType, id))
+            return true;
+    }
+    return false;
+}
+
+static void
+addToRefs(RefContainer *refs, const UA_NodeId id)
+{
+    refs->ids = (UA_NodeId *)realloc(refs->ids, sizeof(UA_NodeId) * (refs->size + 1));
+    UA_NodeId *newId = refs->ids + refs->size;
+    UA_NodeId_copy(&id, newId);
+    refs->size++;
+}
 
-static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
-                    RefServiceImpl *impl)
+// adds a reference type and its subtypes, each of them once (the server does
+// not prevent cycles of HasSubtype references)
+static void addWithSubtypes(UA_Server *server, const UA_NodeId *startId,
+                            RefContainer *refs)
 {
+    if (isInContainer(refs, startId))
+    {
+        return;
+    }
+    addToRefs(refs, *startId);
     UA_BrowseDescription bd;
     UA_BrowseDescription_init(&bd);
     bd.browseDirection = UA_BROWSEDIRECTION_FORWARD;
@@ -57,69 +82,27 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
         for (UA_ReferenceDescription *rd = br.references;
              rd != br.references + br.referencesSize; rd++)
         {
-            fnc(impl, rd->nodeId.nodeId);
-
-            iterate(server, &rd->nodeId.nodeId, fnc, impl);
+            addWithSubtypes(server, &rd->nodeId.nodeId, refs);
         }
     }
     UA_BrowseResult_clear(&br);
 }
 
-static void
-addToRefs(RefContainer *refs, const UA_NodeId id)
-{
-    refs->ids = (UA_NodeId *)realloc(refs->ids, sizeof(UA_NodeId) * (refs->size + 1));
-    UA_NodeId *newId = refs->ids + refs->size;
-    UA_NodeId_copy(&id, newId);
-    refs->size++;
-}
-
-static void addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
-{
-    addToRefs(&impl->hierachicalRefs, id);
-}
-
-static void addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
-{
-    addToRefs(&impl->nonHierachicalRefs, id);
-}
-
-static void addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
-{
-    addToRefs(&impl->hasTypeDefRefs, id);
-}
-
-static void getRefs(UA_Server *server, RefServiceImpl *impl,
-                    const UA_NodeId startId, browseFnc fn)
-{
-    iterate(server, &startId, fn, impl);
-}
-
-static bool
-isInContainer(const RefContainer c, const NL_Reference *ref) {
-    for (const UA_NodeId *id = c.ids; id != c.ids + c.size; id++)
-    {
-        if (UA_NodeId_equal(&ref->refType, id))
-            return true;
-    }
-    return false;
-}
-
 static bool isNonHierachicalRef(const RefServiceImpl *service,
                                 const NL_Reference *ref)
 {
-    return isInContainer(service->nonHierachicalRefs, ref);
+    return isInContainer(&service->nonHierachicalRefs, &ref->refType);
 }
 
 static bool isHierachicalRef(const RefServiceImpl *service,
                                    const NL_Reference *ref)
 {
-    return isInContainer(service->hierachicalRefs, ref);
+    return isInContainer(&service->hierachicalRefs, &ref->refType);
 }
 
 static bool isTypeDefRef(const RefServiceImpl *service, const NL_Reference *ref)
 {
-    return isInContainer(service->hasTypeDefRefs, ref);
+    return isInContainer(&service->hasTypeDefRefs, &ref->refType);
 }
 
 static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
@@ -157,12 +140,9 @@ NL_ReferenceService *RefServiceImpl_new(struct UA_Server *server)
     UA_NodeId nonHierachicalRoot =
         UA_NODEID_NUMERIC(0, UA_NS0ID_NONHIERARCHICALREFERENCES);
     UA_NodeId hasTypeDefRoot = UA_NODEID_NUMERIC(0, UA_NS0ID_HASTYPEDEFINITION);
-    addToRefs(&impl->hierachicalRefs, hierachicalRoot);
-    addToRefs(&impl->nonHierachicalRefs, nonHierachicalRoot);
-    addToRefs(&impl->hasTypeDefRefs, hasTypeDefRoot);
-    getRefs(server, impl, hierachicalRoot, addToHierachicalRefs);
-    getRefs(server, impl, nonHierachicalRoot, addToNonHierachicalRefs);
-    getRefs(server, impl, hasTypeDefRoot, addToHasTypeDefRefs);
+    addWithSubtypes(server, &hierachicalRoot, &impl->hierachicalRefs);
+    addWithSubtypes(server, &nonHierachicalRoot, &impl->nonHierachicalRefs);
+    addWithSubtypes(server, &hasTypeDefRoot, &impl->hasTypeDefRefs);
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
     if (!refService)
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index c6f66f4..c561dcf 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -33,10 +33,14 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
 
     UA_NodeId parentId = UA_NODEID_NULL;
     UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
-    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize > 0)
+    for (size_t i = 0; i < br.referencesSize; i++)
     {
-        // the caller releases the copy
-        UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
+        if (!UA_NodeId_equal(&br.references[i].nodeId.nodeId, &id))
+        {
+            // the caller releases the copy
+            UA_NodeId_copy(&br.references[i].nodeId.nodeId, &parentId);
+            break;
+        }
     }
     UA_BrowseResult_clear(&br);
     return parentId;
@@ -63,7 +67,8 @@ static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
     UA_NodeId current = UA_NODEID_NULL;
     UA_NodeId_copy(&dataTypeId, &current);
-    while (!isKnownParent(current))
+    // the server does not prevent cycles of HasSubtype references
+    for (size_t depth = 0; depth < 1000 && !isKnownParent(current); depth++)
     {
         UA_NodeId parent = getParentDataType(server, current);
         UA_NodeId_clear(&current);
-- 
2.43.0


From 83ea638d9f3354a69bed2b8947956bc52ec89ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 33/55] fix: backend: every load has its own array of data
 types

A load appended to the array it found in the configuration: more than 1000
data types aborted, types set by the user were overrun, and a file loaded
twice registered its types twice.
---
 backends/open62541/src/DataTypeImporter.c | 92 ++++++++++++++---------
 backends/open62541/src/DataTypeImporter.h |  4 +-
 backends/open62541/src/import.c           |  9 ++-
 3 files changed, 66 insertions(+), 39 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 60100ee..803e0d1 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -17,12 +17,20 @@
 
 struct DataTypeImporter
 {
+    UA_Server *server;
+    // the data types of this import, NULL as long as there are none
     UA_DataTypeArray *types;
+    size_t maxTypes;
     const NL_DataTypeNode **nodes;
     size_t nodesSize;
-    size_t firstNewDataType;
 };
 
+static const UA_DataTypeArray *
+getCustomTypes(const DataTypeImporter *importer)
+{
+    return UA_Server_getConfig(importer->server)->customDataTypes;
+}
+
 static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
 {
     UA_NodeId encodingRefType = UA_NODEID_NUMERIC(0, 38);
@@ -403,7 +411,7 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
     if (!UA_NodeId_equal(&parent, &structId))
     {
         const UA_DataType *parentType =
-            getDataType(&parent, importer->types, NULL);
+            getDataType(&parent, getCustomTypes(importer), NULL);
         // copy over parent members, if no members (abstract type), nothing is
         // done
         // First need to check if parentType exists at all. NodesetCompiler in
@@ -444,7 +452,7 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
     {
         UA_NodeId memberTypeId = node->definition->fields[i].dataType;
         member->memberType =
-            getDataType(&memberTypeId, importer->types, importer);
+            getDataType(&memberTypeId, getCustomTypes(importer), importer);
         i++;
     }
 }
@@ -504,7 +512,7 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     type->pointerFree = true;
     if (!isOptionSet)
     {
-        addDataTypeMembers(importer->types, type, node);
+        addDataTypeMembers(getCustomTypes(importer), type, node);
     }
     type->overlayable = false;
 }
@@ -579,8 +587,7 @@ static void calcMemSize(DataTypeImporter *importer)
     {
         allTypesFinished = true;
         for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types +
-                 importer->firstNewDataType;
+                 (UA_DataType *)(uintptr_t)importer->types->types;
              type != importer->types->types + importer->types->typesSize;
              type++)
         {
@@ -600,10 +607,12 @@ static void calcMemSize(DataTypeImporter *importer)
 
 void DataTypeImporter_initMembers(DataTypeImporter *importer)
 {
-
+    if (!importer->types)
+    {
+        return;
+    }
     size_t cnt = 0;
-    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
-                             importer->firstNewDataType;
+    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types;
          type != importer->types->types + importer->types->typesSize; type++)
     {
         if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
@@ -617,19 +626,46 @@ void DataTypeImporter_initMembers(DataTypeImporter *importer)
     calcMemSize(importer);
 }
 
+// every import has its own array, the types of other arrays are never moved
+static bool newTypes(DataTypeImporter *importer)
+{
+    UA_DataTypeArray *newCustomTypes =
+        (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
+    if (!newCustomTypes)
+    {
+        return false;
+    }
+    newCustomTypes->types =
+        (UA_DataType *)UA_calloc(importer->maxTypes, sizeof(UA_DataType));
+    if (!newCustomTypes->types)
+    {
+        UA_free(newCustomTypes);
+        return false;
+    }
+#ifndef USE_CLEANUP_CUSTOM_DATATYPES
+    newCustomTypes->cleanup = UA_TRUE;
+#endif
+    UA_ServerConfig *config = UA_Server_getConfig(importer->server);
+    newCustomTypes->next = config->customDataTypes;
+    config->customDataTypes = newCustomTypes;
+    importer->types = newCustomTypes;
+    return true;
+}
+
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node,
                                         const UA_NodeId parent)
 {
-    // there is an open issue for that
-    // the user of the library should provide the memory for the custom
-    // dataTypes, then it is clear that he has to clean it up
-    if (!importer->types->types)
+    // a type that is already registered stays as it is, values may refer to it
+    if (findCustomDataType(&node->id, getCustomTypes(importer)))
     {
-        importer->types->types =
-            (UA_DataType *)calloc(1000, sizeof(UA_DataType));
+        return;
     }
-    assert(importer->types->typesSize < 1000);
+    if (!importer->types && !newTypes(importer))
+    {
+        return;
+    }
+    assert(importer->types->typesSize < importer->maxTypes);
 
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
@@ -672,7 +708,8 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     (*(size_t *)(uintptr_t)&importer->types->typesSize)++;
 }
 
-DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
+DataTypeImporter *DataTypeImporter_new(struct UA_Server *server,
+                                       size_t maxTypes)
 {
     DataTypeImporter *importer =
         (DataTypeImporter *)calloc(1, sizeof(DataTypeImporter));
@@ -680,25 +717,8 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
     {
         return NULL;
     }
-
-    UA_ServerConfig *config = UA_Server_getConfig(server);
-    if (!config->customDataTypes)
-    {
-        // we append all types to customTypes array
-        UA_DataTypeArray *newCustomTypes =
-            (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
-        if (!newCustomTypes)
-        {
-            return importer;
-        }
-#ifndef USE_CLEANUP_CUSTOM_DATATYPES
-        newCustomTypes->cleanup = UA_TRUE;
-#endif
-        newCustomTypes->next = config->customDataTypes;
-        config->customDataTypes = newCustomTypes;
-    }
-    importer->types = (UA_DataTypeArray *)(uintptr_t)config->customDataTypes;
-    importer->firstNewDataType = importer->types->typesSize;
+    importer->server = server;
+    importer->maxTypes = maxTypes;
     return importer;
 }
 
diff --git a/backends/open62541/src/DataTypeImporter.h b/backends/open62541/src/DataTypeImporter.h
index 40665b7..b7990e7 100644
--- a/backends/open62541/src/DataTypeImporter.h
+++ b/backends/open62541/src/DataTypeImporter.h
@@ -15,7 +15,9 @@
 struct DataTypeImporter;
 typedef struct DataTypeImporter DataTypeImporter;
 
-DataTypeImporter *DataTypeImporter_new(struct UA_Server *server);
+// maxTypes: upper bound for the number of data types that will be added
+DataTypeImporter *DataTypeImporter_new(struct UA_Server *server,
+                                       size_t maxTypes);
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node, const UA_NodeId parentId);
 // has to be called after all dependent types where added
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index c561dcf..07d01c6 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -283,7 +283,8 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
         const UA_DataTypeArray *types = config->customDataTypes;
 
         data = RawData_new(data);
-        Value_getData(data, node->value, dataType, types->types, serverContext);
+        Value_getData(data, node->value, dataType,
+                      types ? types->types : NULL, serverContext);
 
         if (data)
         {
@@ -546,12 +547,16 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
                                        parent);
 }
 
+static void ignoreNode(void *context, NL_Node *node) {}
+
 static void importDataTypes(NodesetLoader *loader, UA_Server *server)
 {
     // add datatypes
     const NL_BiDirectionalReference *hasEncodingRef =
         NodesetLoader_getBidirectionalRefs(loader);
-    DataTypeImporter *importer = DataTypeImporter_new(server);
+    const size_t typesCnt =
+        NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, NULL, ignoreNode);
+    DataTypeImporter *importer = DataTypeImporter_new(server, typesCnt);
     struct DataTypeImportCtx ctx;
     ctx.hasEncodingRef = hasEncodingRef;
     ctx.server = server;
-- 
2.43.0


From 5d7363590674106d50c424a2edd597eeb4360122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 34/55] fix: backend: registered data types own their NodeIds

The NodeIds of the type and of its encoding pointed into the nodes of the
loader, which are deleted after the load.
---
 backends/open62541/src/DataTypeImporter.c | 12 ++++++------
 backends/open62541/src/customDataType.c   |  2 ++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 803e0d1..f3b2638 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -31,6 +31,7 @@ getCustomTypes(const DataTypeImporter *importer)
     return UA_Server_getConfig(importer->server)->customDataTypes;
 }
 
+// the caller releases the copy
 static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
 {
     UA_NodeId encodingRefType = UA_NODEID_NUMERIC(0, 38);
@@ -39,7 +40,8 @@ static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
     {
         if (UA_NodeId_equal(&encodingRefType, &ref->refType))
         {
-            UA_NodeId id = ref->target;
+            UA_NodeId id = UA_NODEID_NULL;
+            UA_NodeId_copy(&ref->target, &id);
             return id;
         }
         ref = ref->next;
@@ -507,7 +509,6 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->typeId = node->id;
     type->binaryEncodingId = getBinaryEncodingId(node);
     type->pointerFree = true;
     if (!isOptionSet)
@@ -521,7 +522,6 @@ static void EnumDataType_init(const DataTypeImporter *importer,
                               UA_DataType *enumType,
                               const NL_DataTypeNode *node)
 {
-    enumType->typeId = node->id;
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
     enumType->pointerFree = true;
@@ -543,8 +543,7 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
         parentType = &UA_TYPES[UA_TYPES_VARIANT];
     }
 
-    type->typeId = node->id;
-    type->binaryEncodingId = parentType->binaryEncodingId;
+    UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
     type->membersSize = 0;
     type->memSize = parentType->memSize;
@@ -670,7 +669,8 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
     memset(type, 0, sizeof(UA_DataType));
-    type->typeId = node->id;
+    // the node is deleted after the import, the type is not
+    UA_NodeId_copy(&node->id, &type->typeId);
     if (node->browseName.name)
     {
         size_t len = strlen(node->browseName.name);
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..34409e9 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -44,6 +44,8 @@ static void cleanupCustomTypes(const UA_DataTypeArray *types)
                  type != types->types + types->typesSize; type++)
             {
                 free((void*)(uintptr_t)type->typeName);
+                UA_NodeId_clear((UA_NodeId*)(uintptr_t)&type->typeId);
+                UA_NodeId_clear((UA_NodeId*)(uintptr_t)&type->binaryEncodingId);
                 for (UA_DataTypeMember *m = type->members;
                      m != type->members + type->membersSize; m++)
                 {
-- 
2.43.0


From 274fe5c7211607ed6a0c23ea95cb77a34edcb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 35/55] fix: backend: sizes and padding of structures and
 unions follow C

---
 backends/open62541/src/DataTypeImporter.c | 191 ++++++++++------------
 1 file changed, 89 insertions(+), 102 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index f3b2638..dcfc9d9 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -197,10 +197,30 @@ typedef struct
     UA_ExtensionObject member;
 } TempExtensionObject;
 typedef struct
+{
+    char c;
+    UA_DataValue member;
+} TempDataValue;
+typedef struct
 {
     char c;
     UA_Guid member;
 } TempGuid;
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
+
+static int maxInt(int a, int b) { return a > b ? a : b; }
+
+static int getStructAlignment(const UA_DataType *type,
+                              const UA_DataTypeArray *customTypes);
 
 static int getAlignment(const UA_DataType *type,
                         const UA_DataTypeArray *customTypes)
@@ -255,139 +275,106 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempInt32, member);
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
-    case UA_DATATYPEKIND_UNION:
-        return 0;
+    case UA_DATATYPEKIND_DATAVALUE:
+        return offsetof(TempDataValue, member);
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
-        int retAlignment = 0;
-        for (UA_UInt32 i = 0; i < type->membersSize; i++)
-        {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
-            if (tmp > retAlignment)
-            {
-                retAlignment = tmp;
-            }
-        }
-        return retAlignment;
+    case UA_DATATYPEKIND_UNION:
+        return getStructAlignment(type, customTypes);
     }
 
     assert(false && "typeKind not handled");
     return 0;
 }
 
-typedef struct
+// arrays are a size_t followed by a pointer, optional members a pointer
+static int getMemberAlignment(const UA_DataTypeMember *member,
+                              const UA_DataTypeArray *customTypes)
 {
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
+    if (member->isArray)
+    {
+        return maxInt(offsetof(TempSizeT, member),
+                      offsetof(TempVoidPtr, member));
+    }
+    if (member->isOptional)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    return getAlignment(member->memberType, customTypes);
+}
+
+static int getMemberSize(const UA_DataTypeMember *member)
 {
-    char c;
-    void *member;
-} TempVoidPtr;
+    if (member->isArray)
+    {
+        return (int)(sizeof(size_t) + sizeof(void *));
+    }
+    if (member->isOptional)
+    {
+        return (int)sizeof(void *);
+    }
+    return member->memberType->memSize;
+}
+
+static int getStructAlignment(const UA_DataType *type,
+                              const UA_DataTypeArray *customTypes)
+{
+    if (type->membersSize == 0)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    int alignment = 1;
+    if (type->typeKind == UA_DATATYPEKIND_UNION)
+    {
+        // the switch field
+        alignment = offsetof(TempUInt32, member);
+    }
+    for (UA_UInt32 i = 0; i < type->membersSize; i++)
+    {
+        alignment = maxInt(
+            alignment, getMemberAlignment(&type->members[i], customTypes));
+    }
+    return alignment;
+}
 
 static void setPaddingMemsize(UA_DataType *type,
                               const UA_DataTypeArray *customTypes)
 {
-    if (!type->members)
+    if (type->membersSize == 0)
     {
+        type->memSize = sizeof(void *);
         return;
     }
+    const bool isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
+    const int alignment = getStructAlignment(type, customTypes);
+    // the members of a union follow the switch field, all at the same offset
+    const int unionOffset =
+        (int)sizeof(UA_UInt32) + getPadding(alignment, (int)sizeof(UA_UInt32));
     int offset = 0;
-    int endPadding = 0;
-
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
 
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
     {
-        const UA_DataType *memberType = tm->memberType;
-        type->pointerFree = type->pointerFree && memberType->pointerFree;
-
-        if (tm->isArray)
-        {
-            // for arrays we have to take the size_t for the arraySize into
-            // account if the open changes the implementation of array
-            // serialization, we have a serious problem
-            // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
-            // the void* for data
-            align = offsetof(TempVoidPtr, member);
-            int padding2 = getPadding(align, offset);
-            offset = offset + padding2 + (UA_Byte)sizeof(void *);
-            // datatype is not pointerfree
-            type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
+        // arrays and optional members are not pointerfree
+        type->pointerFree = type->pointerFree && !tm->isArray &&
+                            !tm->isOptional && tm->memberType->pointerFree;
 
-            hasArrayMember = true;
-        }
-        else if (tm->isOptional)
+        if (isUnion)
         {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
-            type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
+            tm->padding = (UA_Byte)(0x3F & unionOffset);
+            offset = maxInt(offset, unionOffset + getMemberSize(tm));
         }
         else
         {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
-
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
-            {
-                biggestMemberSize = memberType->memSize;
-            }
-        }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
-        {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            tm->padding = (UA_Byte)(0x3F & getPadding(getMemberAlignment(
+                                               tm, customTypes), offset));
+            offset = offset + tm->padding + getMemberSize(tm);
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
-    }
-    else
-    {
-        type->memSize = (UA_UInt16)(offset + endPadding);
     }
+    // the end padding
+    type->memSize = (UA_UInt16)(offset + getPadding(alignment, offset));
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
-- 
2.43.0


From f2131a087b6863a3deaa0b5b53c6ff6e9aeb32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 36/55] fix: backend: data types with unknown, recursive or
 empty members do not hang the load

---
 backends/open62541/src/DataTypeImporter.c | 105 +++++++++++++++-------
 1 file changed, 74 insertions(+), 31 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index dcfc9d9..7ffe055 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -442,6 +442,11 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         UA_NodeId memberTypeId = node->definition->fields[i].dataType;
         member->memberType =
             getDataType(&memberTypeId, getCustomTypes(importer), importer);
+        if (!member->memberType)
+        {
+            // the type is not known
+            member->memberType = &UA_TYPES[UA_TYPES_VARIANT];
+        }
         i++;
     }
 }
@@ -539,56 +544,96 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static bool readyForMemsizeCalc(const UA_DataType *type,
-                                const UA_DataType *customTypes)
+static bool isStructured(const UA_DataType *type)
 {
-    if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
-    {
-        return true;
-    }
-    if (type->membersSize == 0)
+    return type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+           type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
+           type->typeKind == UA_DATATYPEKIND_UNION;
+}
+
+// the memsize of the member is not known yet, finished: one entry per type of
+// the importer
+static bool isBlocking(const DataTypeImporter *importer, const bool *finished,
+                       const UA_DataTypeMember *m)
+{
+    if (m->isArray || m->isOptional)
     {
-        return true;
+        // only pointers to the member
+        return false;
     }
-    bool ready = true;
-    for (UA_DataTypeMember *m = type->members;
+    const UA_DataType *first = importer->types->types;
+    return m->memberType >= first &&
+           m->memberType < first + importer->types->typesSize &&
+           !finished[m->memberType - first];
+}
+
+static bool readyForMemsizeCalc(const DataTypeImporter *importer,
+                                const bool *finished, const UA_DataType *type)
+{
+    for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        if (isBlocking(importer, finished, m))
         {
-            continue;
+            return false;
         }
-        ready = false;
-        break;
     }
-    return ready;
+    return true;
 }
 
 static void calcMemSize(DataTypeImporter *importer)
 {
-    bool allTypesFinished = false;
-    // datatype nodes could be sorted upfront to detect cyclic dependencies
-    while (!allTypesFinished)
+    UA_DataType *types = (UA_DataType *)(uintptr_t)importer->types->types;
+    const size_t size = importer->types->typesSize;
+    bool *finished = (bool *)calloc(size, sizeof(bool));
+    if (!finished)
     {
-        allTypesFinished = true;
-        for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types;
-             type != importer->types->types + importer->types->typesSize;
-             type++)
+        return;
+    }
+    size_t finishedCnt = 0;
+    while (finishedCnt < size)
+    {
+        const size_t oldCnt = finishedCnt;
+        size_t firstUnfinished = size;
+        for (size_t i = 0; i < size; i++)
         {
+            if (finished[i])
+            {
+                continue;
+            }
             // we can calculate the memsize if the memsize of all membertypes is
             // known
-            if (readyForMemsizeCalc(type, importer->types->types))
+            if (!isStructured(&types[i]) ||
+                readyForMemsizeCalc(importer, finished, &types[i]))
             {
-                setPaddingMemsize(type, importer->types);
+                if (isStructured(&types[i]))
+                {
+                    setPaddingMemsize(&types[i], importer->types);
+                }
+                finished[i] = true;
+                finishedCnt++;
             }
-            else
+            else if (firstUnfinished == size)
             {
-                allTypesFinished = false;
+                firstUnfinished = i;
+            }
+        }
+        if (finishedCnt == oldCnt)
+        {
+            // the remaining types contain themselves, there is no such C
+            // structure
+            UA_DataType *type = &types[firstUnfinished];
+            for (UA_DataTypeMember *m = type->members;
+                 m != type->members + type->membersSize; m++)
+            {
+                if (isBlocking(importer, finished, m))
+                {
+                    m->memberType = &UA_TYPES[UA_TYPES_VARIANT];
+                }
             }
         }
     }
+    free(finished);
 }
 
 void DataTypeImporter_initMembers(DataTypeImporter *importer)
@@ -601,9 +646,7 @@ void DataTypeImporter_initMembers(DataTypeImporter *importer)
     for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types;
          type != importer->types->types + importer->types->typesSize; type++)
     {
-        if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
-            type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
-            type->typeKind == UA_DATATYPEKIND_UNION)
+        if (isStructured(type))
         {
             setDataTypeMembersTypeIndex(importer, type, importer->nodes[cnt]);
         }
-- 
2.43.0


From 7d40f1628663bb1dbf496fd1285986ddf7b5f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 37/55] fix: backend: fields without a name do not crash the
 load

---
 backends/open62541/src/DataTypeImporter.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 7ffe055..84a3017 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -474,10 +474,14 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
         UA_NodeId typeId = node->definition->fields[i].dataType;
         member->memberType = getDataType(&typeId, customTypes, NULL);
 
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
+        const char *name = node->definition->fields[i].name;
+        if (!name)
+        {
+            name = "";
+        }
+        char *memberNameCopy =
+            (char *)UA_calloc(strlen(name) + 1, sizeof(char));
+        memcpy(memberNameCopy, name, strlen(name));
         member->memberName = memberNameCopy;
         member->isOptional = node->definition->fields[i].isOptional;
         if (member->isOptional)
-- 
2.43.0


From 585c8d5ac6f572bf3acca7ac616945a89bd042d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 38/55] fix: backend: members are inherited from the supertype,
 not from any parent

---
 backends/open62541/src/DataTypeImporter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 84a3017..f3c1acf 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -379,10 +379,11 @@ static void setPaddingMemsize(UA_DataType *type,
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
 {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     while (ref)
     {
-        if (!ref->isForward)
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype))
             return ref->target;
         ref = ref->next;
     }
-- 
2.43.0


From 9d875842c9b5cca8bb5bc5db556dbebd4fdf9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 39/55] fix: backend: structures inherit optional members

---
 backends/open62541/src/DataTypeImporter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index f3c1acf..1e645e7 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -433,6 +433,12 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                 (uint8_t)(parentType->membersSize + type->membersSize);
             type->memSize = parentType->memSize;
             memberOffset = parentType->membersSize;
+            // optional members are inherited as well
+            if (parentType->typeKind == UA_DATATYPEKIND_OPTSTRUCT &&
+                type->typeKind == UA_DATATYPEKIND_STRUCTURE)
+            {
+                type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+            }
         }
     }
 
-- 
2.43.0


From 15d1990b601a4aed290735c452bc317260c254fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 40/55] fix: backend: data types with more than 255 members do
 not write out of bounds

---
 backends/open62541/src/DataTypeImporter.c | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 1e645e7..b38fc92 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -15,6 +15,9 @@
 
 #include <assert.h>
 
+// UA_DataType counts its members with 8 bit
+#define MAX_MEMBERS 255
+
 struct DataTypeImporter
 {
     UA_Server *server;
@@ -408,6 +411,13 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         // open62541 would not generate a type if it had no members.
         if (parentType && parentType->members)
         {
+            // skip the members that do not fit
+            while (type->membersSize > MAX_MEMBERS - parentType->membersSize)
+            {
+                type->membersSize--;
+                UA_free((void *)(uintptr_t)type->members[type->membersSize]
+                            .memberName);
+            }
             UA_DataTypeMember *members = (UA_DataTypeMember *)calloc(
                 (size_t)(parentType->membersSize + type->membersSize),
                 sizeof(UA_DataTypeMember));
@@ -470,11 +480,17 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
         return;
     }
 
-    type->membersSize = (unsigned char)node->definition->fieldCnt;
-    type->members = (UA_DataTypeMember *)calloc(node->definition->fieldCnt,
-                                                sizeof(UA_DataTypeMember));
+    // skip the members that do not fit
+    size_t fieldCnt = node->definition->fieldCnt;
+    if (fieldCnt > MAX_MEMBERS)
+    {
+        fieldCnt = MAX_MEMBERS;
+    }
+    type->membersSize = (unsigned char)fieldCnt;
+    type->members =
+        (UA_DataTypeMember *)calloc(fieldCnt, sizeof(UA_DataTypeMember));
 
-    for (size_t i = 0; i < node->definition->fieldCnt; i++)
+    for (size_t i = 0; i < fieldCnt; i++)
     {
         UA_DataTypeMember *member = type->members + i;
         member->isArray = node->definition->fields[i].valueRank >= 0;
-- 
2.43.0


From fee297ef9829b6b7dd255d9f934c388dfcffcad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 41/55] fix: backend: members of abstract data types are
 Variants, wherever the type comes from

---
 backends/open62541/src/DataTypeImporter.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index b38fc92..5b1fc72 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -69,15 +69,12 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
     type = findCustomDataType(id, customTypes);
     if (type && importer)
     {
-        for (size_t i = 0; i < importer->nodesSize; i++)
+        // the type can be from an earlier import, so ask the server
+        UA_Boolean isAbstract = UA_FALSE;
+        UA_Server_readIsAbstract(importer->server, type->typeId, &isAbstract);
+        if (isAbstract)
         {
-            if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
-            {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
-                {
-                    return &UA_TYPES[UA_TYPES_VARIANT];
-                }
-            }
+            return &UA_TYPES[UA_TYPES_VARIANT];
         }
     }
     return type;
-- 
2.43.0


From 91c041a7c2a1b79270976f6f3256dba0aeb9833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 42/55] fix: backend: the binary encoding of a data type is
 never its Default XML or Default JSON

---
 backends/open62541/src/DataTypeImporter.c | 28 +++----------
 backends/open62541/src/DataTypeImporter.h |  4 +-
 backends/open62541/src/import.c           | 50 ++++++++++++++++++++++-
 3 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 5b1fc72..3b40010 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -34,24 +34,6 @@ getCustomTypes(const DataTypeImporter *importer)
     return UA_Server_getConfig(importer->server)->customDataTypes;
 }
 
-// the caller releases the copy
-static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
-{
-    UA_NodeId encodingRefType = UA_NODEID_NUMERIC(0, 38);
-    NL_Reference *ref = node->nonHierachicalRefs;
-    while (ref)
-    {
-        if (UA_NodeId_equal(&encodingRefType, &ref->refType))
-        {
-            UA_NodeId id = UA_NODEID_NULL;
-            UA_NodeId_copy(&ref->target, &id);
-            return id;
-        }
-        ref = ref->next;
-    }
-    return UA_NODEID_NULL;
-}
-
 static const UA_DataType *getDataType(const UA_NodeId *id,
                                       const UA_DataTypeArray *customTypes,
                                       const DataTypeImporter *importer)
@@ -515,6 +497,7 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
 static void StructureDataType_init(const DataTypeImporter *importer,
                                    UA_DataType *type,
                                    const NL_DataTypeNode *node,
+                                   const UA_NodeId *binaryEncodingId,
                                    bool isOptionSet)
 {
     if (node->definition && node->definition->isUnion)
@@ -525,7 +508,7 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->binaryEncodingId = getBinaryEncodingId(node);
+    UA_NodeId_copy(binaryEncodingId, &type->binaryEncodingId);
     type->pointerFree = true;
     if (!isOptionSet)
     {
@@ -707,7 +690,8 @@ static bool newTypes(DataTypeImporter *importer)
 
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node,
-                                        const UA_NodeId parent)
+                                        const UA_NodeId parent,
+                                        const UA_NodeId *binaryEncodingId)
 {
     // a type that is already registered stays as it is, values may refer to it
     if (findCustomDataType(&node->id, getCustomTypes(importer)))
@@ -742,12 +726,12 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     else if (UA_NodeId_equal(&parent, &optionset))
     {
         // treat optionset like a struct
-        StructureDataType_init(importer, type, node, true);
+        StructureDataType_init(importer, type, node, binaryEncodingId, true);
     }
 
     else if (UA_NodeId_equal(&parent, &structure))
     {
-        StructureDataType_init(importer, type, node, false);
+        StructureDataType_init(importer, type, node, binaryEncodingId, false);
     }
     else
     {
diff --git a/backends/open62541/src/DataTypeImporter.h b/backends/open62541/src/DataTypeImporter.h
index b7990e7..a5bb6ef 100644
--- a/backends/open62541/src/DataTypeImporter.h
+++ b/backends/open62541/src/DataTypeImporter.h
@@ -19,7 +19,9 @@ typedef struct DataTypeImporter DataTypeImporter;
 DataTypeImporter *DataTypeImporter_new(struct UA_Server *server,
                                        size_t maxTypes);
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
-                                        const NL_DataTypeNode *node, const UA_NodeId parentId);
+                                        const NL_DataTypeNode *node,
+                                        const UA_NodeId parentId,
+                                        const UA_NodeId *binaryEncodingId);
 // has to be called after all dependent types where added
 void DataTypeImporter_initMembers(DataTypeImporter *importer);
 void DataTypeImporter_delete(DataTypeImporter *importer);
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 07d01c6..ac519b8 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -515,15 +515,57 @@ static void logToOpen(void *context, enum NodesetLoader_LogLevel level,
 
 struct DataTypeImportCtx
 {
+    NodesetLoader *loader;
     DataTypeImporter *importer;
     const NL_BiDirectionalReference *hasEncodingRef;
     UA_Server *server;
 };
 
+struct OtherEncodingCtx
+{
+    const UA_NodeId *id;
+    bool isOther;
+};
+
+static void checkEncodingName(struct OtherEncodingCtx *ctx, NL_Node *node)
+{
+    if (UA_NodeId_equal(ctx->id, &node->id) &&
+        (!node->browseName.name ||
+         strcmp(node->browseName.name, "Default Binary")))
+    {
+        ctx->isOther = true;
+    }
+}
+
+// the first encoding that is not known to be the Default XML or another one
+static UA_NodeId getBinaryEncodingId(NodesetLoader *loader,
+                                     const NL_Node *node)
+{
+    const UA_NodeId hasEncoding = UA_NODEID_NUMERIC(0, UA_NS0ID_HASENCODING);
+    for (const NL_Reference *ref = node->nonHierachicalRefs; ref;
+         ref = ref->next)
+    {
+        if (!ref->isForward || !UA_NodeId_equal(&hasEncoding, &ref->refType))
+        {
+            continue;
+        }
+        struct OtherEncodingCtx ctx = {&ref->target, false};
+        NodesetLoader_forEachNode(
+            loader, NODECLASS_OBJECT, &ctx,
+            (NodesetLoader_forEachNode_Func)checkEncodingName);
+        if (!ctx.isOther)
+        {
+            return ref->target;
+        }
+    }
+    return UA_NODEID_NULL;
+}
+
 static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
 {
     // add only the types
     const NL_BiDirectionalReference *r = ctx->hasEncodingRef;
+    UA_NodeId binaryEncodingId = UA_NODEID_NULL;
     while (r)
     {
         if (UA_NodeId_equal(&r->source, &node->id))
@@ -537,14 +579,19 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
             ref->next = lastRef;
+            binaryEncodingId = ref->target;
             break;
         }
         r = r->next;
     }
+    if (!r)
+    {
+        binaryEncodingId = getBinaryEncodingId(ctx->loader, node);
+    }
     const UA_NodeId parent =
         getParentType(ctx->server, node->id);
     DataTypeImporter_addCustomDataType(ctx->importer, (NL_DataTypeNode *)node,
-                                       parent);
+                                       parent, &binaryEncodingId);
 }
 
 static void ignoreNode(void *context, NL_Node *node) {}
@@ -558,6 +605,7 @@ static void importDataTypes(NodesetLoader *loader, UA_Server *server)
         NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, NULL, ignoreNode);
     DataTypeImporter *importer = DataTypeImporter_new(server, typesCnt);
     struct DataTypeImportCtx ctx;
+    ctx.loader = loader;
     ctx.hasEncodingRef = hasEncodingRef;
     ctx.server = server;
     ctx.importer = importer;
-- 
2.43.0


From dcb504ba24599cddd7a8bde9378966d6484aef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:20 +0000
Subject: [PATCH 43/55] fix: backend: values of 64 bit integers are not
 truncated

---
 backends/open62541/src/Value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..9ab4833 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -57,17 +57,17 @@ static void setInt32(uintptr_t adr, const char *value)
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoul(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = (UA_Int64)strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = (UA_UInt64)strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
-- 
2.43.0


From 082ce4aa91968f0d81804ecc02c7feefdc70278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:20 +0000
Subject: [PATCH 44/55] fix: backend: DateTime values keep fractions of seconds
 and time zones, and may be empty

---
 backends/open62541/src/conversion.h | 34 +++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 02ba19c..e2b27a0 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -59,11 +59,41 @@ static inline UA_NodeId extractNodeId(char *s)
 
 static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
+    if (!dateString)
+    {
+        return 0;
+    }
     UA_DateTimeStruct dt;
     memset(&dt, 0, sizeof(UA_DateTimeStruct));
-    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%huZ",
-           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec);
+    int len = 0;
+    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%hu%n",
+           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec, &len);
     UA_DateTime dateTime = UA_DateTime_fromStruct(dt);
+    if (len == 0)
+    {
+        return dateTime;
+    }
+    // fraction of the second
+    const char *rest = dateString + len;
+    if (*rest == '.')
+    {
+        rest++;
+        for (UA_DateTime unit = UA_DATETIME_SEC / 10;
+             *rest >= '0' && *rest <= '9'; rest++, unit /= 10)
+        {
+            dateTime += (*rest - '0') * unit;
+        }
+    }
+    // time zone
+    unsigned int hours = 0;
+    unsigned int minutes = 0;
+    if ((*rest == '+' || *rest == '-') &&
+        sscanf(rest + 1, "%2u:%2u", &hours, &minutes) == 2)
+    {
+        const UA_DateTime offset =
+            (UA_DateTime)(hours * 60 + minutes) * 60 * UA_DATETIME_SEC;
+        dateTime += *rest == '+' ? -offset : offset;
+    }
     return dateTime;
 }
 
-- 
2.43.0


From a57f6087f52244c672156e03bd3ba7551d6af930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:20 +0000
Subject: [PATCH 45/55] fix: backend: values with empty or missing elements do
 not crash the load

---
 backends/open62541/src/Value.c | 68 ++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 9ab4833..c727d99 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -143,10 +143,28 @@ static void setPrimitiveValue(RawData *data, const char *value,
     data->offset = data->offset + memSize;
 }
 
+// NULL for empty elements and elements with members
+static const char *getPrimitive(const NL_Data *value)
+{
+    if (!value || value->type != DATATYPE_PRIMITIVE)
+    {
+        return NULL;
+    }
+    return value->val.primitiveData.value;
+}
+
+// elements without members are primitive
+static size_t getMembersSize(const NL_Data *value)
+{
+    return value->type == DATATYPE_COMPLEX
+               ? value->val.complexData.membersSize
+               : 0;
+}
+
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
     // is there a better way?
-    for (size_t cnt = 0; cnt < value->val.complexData.membersSize; cnt++)
+    for (size_t cnt = 0; cnt < getMembersSize(value); cnt++)
     {
         if (!strcmp(value->val.complexData.members[cnt]->name, name))
         {
@@ -159,7 +177,7 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
 static void setDateTime(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
+    UA_DateTime time = UA_DateTime_fromString(getPrimitive(value));
     *(UA_DateTime*)adr = time;
     data->offset = data->offset + sizeof(UA_DateTime);
 }
@@ -171,7 +189,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
         UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
+        getPrimitive(lookupMember(value, "NamespaceIndex")));
     
     // Translate namespace index
     ((UA_QualifiedName*)adr)->namespaceIndex = 
@@ -180,7 +198,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     setScalarValueWithAddress(
         (uintptr_t)&((UA_QualifiedName*)adr)->name,
         UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
+        getPrimitive(lookupMember(value, "Name")));
 
     data->offset += sizeof(UA_QualifiedName);
 }
@@ -194,7 +212,7 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
         setScalarValueWithAddress(data->offset + (uintptr_t) &
                                       ((UA_LocalizedText *)data->mem)->locale,
                                   UA_DATATYPEKIND_STRING,
-                                  localeData->val.primitiveData.value);
+                                  getPrimitive(localeData));
     }
 
     NL_Data *textData = lookupMember(value, "Text");
@@ -203,17 +221,16 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
     {
         setScalarValueWithAddress(
             data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
-            UA_DATATYPEKIND_STRING, textData->val.primitiveData.value);
+            UA_DATATYPEKIND_STRING, getPrimitive(textData));
     }
     data->offset += sizeof(UA_LocalizedText);
 }
 
 static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
 {
-    assert(value->val.complexData.membersSize == 1);
     *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
+        extractNodeId((char *)(uintptr_t)getPrimitive(
+            lookupMember(value, "Identifier")));
 
     // Translate namespace index
     (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
@@ -228,9 +245,10 @@ static void setByteString(const NL_Data* value, RawData*data)
     int len = 0;
     unsigned char *val = NULL;
 
-    if (value->val.primitiveData.value)
+    const char *text = getPrimitive(value);
+    if (text)
     {
-        val = unbase64(value->val.primitiveData.value, (int)strlen(value->val.primitiveData.value), &len);
+        val = unbase64(text, (int)strlen(text), &len);
     }
 
     s->length = (size_t)len;
@@ -240,7 +258,11 @@ static void setByteString(const NL_Data* value, RawData*data)
 static void setGuid(const NL_Data* value, RawData*data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
+    const char *text = getPrimitive(lookupMember(value, "String"));
+    if (text)
+    {
+        *(UA_Guid *)adr = UA_GUID(text);
+    }
     data->offset = data->offset + sizeof(UA_Guid);
 }
 
@@ -252,6 +274,10 @@ static void setArray(const NL_Data *value, const UA_DataType *type, RawData *dat
 static const char* getEnumValuePos(const char *string)
 {
     // Enum value is either on <symbol>_<value> or <value> format
+    if (!string)
+    {
+        return NULL;
+    }
     char *enumSepPos = strchr(string, '_');
     if (enumSepPos)
     {
@@ -264,7 +290,6 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
                          RawData *data, const UA_DataType *customTypes,
                          const ServerContext *serverContext)
 {
-    assert(value->type == DATATYPE_COMPLEX);
     // there can be less members specified then the type requires
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
@@ -360,14 +385,9 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
 static void setStatusCode(const NL_Data *value, RawData *data)
 {
     // StatusCode is a complex type with a primitive
-    assert(value->type == DATATYPE_COMPLEX);
-    if (value->val.complexData.membersSize == 1)
-    {
-        NL_Data *code = value->val.complexData.members[0];
-        setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
-            UA_TYPES[UA_TYPES_UINT32].memSize);
-    }
+    setPrimitiveValue(data, getPrimitive(lookupMember(value, "Code")),
+                      UA_DATATYPEKIND_UINT32,
+                      UA_TYPES[UA_TYPES_UINT32].memSize);
 }
 
 static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
@@ -375,7 +395,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 {
     if (type->typeKind < CONVERSION_TABLE_SIZE)
     {
-        setPrimitiveValue(data, value->val.primitiveData.value,
+        setPrimitiveValue(data, getPrimitive(value),
                           (UA_DataTypeKind)type->typeKind, type->memSize);
     }
     else if(type->typeKind == UA_DATATYPEKIND_BYTESTRING)
@@ -400,7 +420,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     }
     else if (type->typeKind == UA_DATATYPEKIND_ENUM)
     {
-        setPrimitiveValue(data, getEnumValuePos(value->val.primitiveData.value),
+        setPrimitiveValue(data, getEnumValuePos(getPrimitive(value)),
                           UA_DATATYPEKIND_INT32,
                           UA_TYPES[UA_TYPES_INT32].memSize);
     }
@@ -429,7 +449,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
                      const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    for (size_t i = 0; i < getMembersSize(value); i++)
     {
         data->offset = i * type->memSize;
         setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
-- 
2.43.0


From 97b594096db16143f5fd1a0810d9b7313cc18b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 46/55] fix: backend: enumeration values whose symbol contains
 underscores are not 0

---
 backends/open62541/src/Value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index c727d99..54aaed9 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -278,7 +278,8 @@ static const char* getEnumValuePos(const char *string)
     {
         return NULL;
     }
-    char *enumSepPos = strchr(string, '_');
+    // the symbol can contain underscores as well
+    const char *enumSepPos = strrchr(string, '_');
     if (enumSepPos)
     {
         return ++enumSepPos;
-- 
2.43.0


From 5759a516f1e4fe1f5ca32782cde7ece71037881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 47/55] fix: backend: members after a missing one are not lost

---
 backends/open62541/src/Value.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 54aaed9..4eeb37d 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -301,8 +301,9 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         NL_Data *memberData = lookupMember(value, m->memberName);
         if (!memberData)
         {
-            data->offset += memberType->memSize;
-            return;
+            data->offset += m->isArray ? sizeof(size_t) + sizeof(void *)
+                                       : memberType->memSize;
+            continue;
         }
         if (m->isArray)
         {
-- 
2.43.0


From 2b4e94a7f04cbdc0581f89039e4eb1252d1843bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 48/55] fix: backend: empty arrays in structures are empty

---
 backends/open62541/src/Value.c | 42 ++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 4eeb37d..333fe66 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -287,6 +287,24 @@ static const char* getEnumValuePos(const char *string)
     return string;
 }
 
+// the size of the array and the pointer to its elements
+static void setArrayMember(const NL_Data *value, const UA_DataType *type,
+                           RawData *data, const UA_DataType *customTypes,
+                           const ServerContext *serverContext)
+{
+    const size_t size = getMembersSize(value);
+    if (size > 0)
+    {
+        RawData *rawdata = RawData_new(data);
+        rawdata->mem = calloc(size, type->memSize);
+        setArray(value, type, rawdata, customTypes, serverContext);
+        *(size_t *)((uintptr_t)data->mem + data->offset) = size;
+        *(void **)((uintptr_t)data->mem + data->offset + sizeof(size_t)) =
+            rawdata->mem;
+    }
+    data->offset += sizeof(size_t) + sizeof(void *);
+}
+
 static void setStructure(const NL_Data *value, const UA_DataType *type,
                          RawData *data, const UA_DataType *customTypes,
                          const ServerContext *serverContext)
@@ -307,16 +325,8 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         }
         if (m->isArray)
         {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                  memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
+            setArrayMember(memberData, memberType, data, customTypes,
+                           serverContext);
         }
         else
         {
@@ -364,16 +374,8 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
         // Write out the field value
         if (type->members[switchField - 1].isArray)
         {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                    memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
+            setArrayMember(memberData, memberType, data, customTypes,
+                           serverContext);
         }
         else
         {
-- 
2.43.0


From 7ac84a2dc70dbd4355bcc49951257ad76f697ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 49/55] fix: backend: values of structures with optional
 members are imported

---
 backends/open62541/src/Value.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 333fe66..695c4e8 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -319,8 +319,9 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         NL_Data *memberData = lookupMember(value, m->memberName);
         if (!memberData)
         {
-            data->offset += m->isArray ? sizeof(size_t) + sizeof(void *)
-                                       : memberType->memSize;
+            data->offset += m->isArray      ? sizeof(size_t) + sizeof(void *)
+                            : m->isOptional ? sizeof(void *)
+                                            : memberType->memSize;
             continue;
         }
         if (m->isArray)
@@ -328,6 +329,16 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
             setArrayMember(memberData, memberType, data, customTypes,
                            serverContext);
         }
+        else if (m->isOptional)
+        {
+            // a pointer to the member
+            RawData *rawdata = RawData_new(data);
+            rawdata->mem = calloc(1, memberType->memSize);
+            setScalar(memberData, memberType, rawdata, customTypes,
+                      serverContext);
+            *(void **)((uintptr_t)data->mem + data->offset) = rawdata->mem;
+            data->offset += sizeof(void *);
+        }
         else
         {
             size_t structOffset = data->offset + memberType->memSize;
@@ -428,7 +439,8 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
                           UA_DATATYPEKIND_INT32,
                           UA_TYPES[UA_TYPES_INT32].memSize);
     }
-    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE)
+    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+             type->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
     {
         setStructure(value, type, data, customTypes, serverContext);
     }
-- 
2.43.0


From d9806eefb5c78af17a416bc421841e7b9af27019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 50/55] fix: backend: unions without or with an unknown switch
 field do not crash the load

---
 backends/open62541/src/Value.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 695c4e8..bb2a989 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -368,18 +368,24 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     // Remember the initial offset of the complete union
     const size_t unionOffset = data->offset;
     // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
-    // Write out the switchField value
-    *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
+    UA_UInt32 switchField = 0;
+    setScalarValueWithAddress((uintptr_t)&switchField, UA_DATATYPEKIND_UINT32,
+                              getPrimitive(lookupMember(value, "SwitchField")));
+    NL_Data *memberData = NULL;
+    if (switchField > 0 && switchField <= type->membersSize)
+    {
+        memberData =
+            lookupMember(value, type->members[switchField - 1].memberName);
+    }
     // Insert the field padding
 
     // If the switch field is 0 then no field is present.
     // A Union with no fields present has the same meaning as a NULL value.
     // See: https://reference.opcfoundation.org/v104/Core/docs/Part6/5.2.8/
-    if (switchField != 0) {
+    if (memberData) {
+        // Write out the switchField value
+        *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
         data->offset += type->members[switchField - 1].padding;
-        // For convenience setup direct pointers to data and type
-        NL_Data *memberData = value->val.complexData.members[1];
         const UA_DataType* memberType = type->members[switchField - 1].memberType;
 
         // Write out the field value
@@ -392,9 +398,9 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
         {
             setScalar(memberData, memberType, data, customTypes, serverContext);
         }
-        // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
-        data->offset = unionOffset + type->memSize;
     }
+    // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
+    data->offset = unionOffset + type->memSize;
 }
 
 static void setStatusCode(const NL_Data *value, RawData *data)
-- 
2.43.0


From efc9c6e71e5f56f9107b73fbf808ceccee9e3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 51/55] fix: backend: values of types without conversion do not
 abort the load

---
 backends/open62541/src/Value.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index bb2a989..86fe4b3 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -462,10 +462,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     {
         setStatusCode(value, data);
     }
-    else
-    {
-        assert(false && "conversion not implemented");
-    }
+    // else: conversion not implemented, the value stays empty
 }
 
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
-- 
2.43.0


From f8514efb4b66d329715a9160c4dec3e668e27aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 52/55] fix: backend: ByteString values with wrong padding are
 not decoded to garbage

---
 backends/open62541/src/nodeset_base64.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..9b78b2b 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <string.h>
 
 static const char *b64 =
     "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
@@ -136,7 +137,7 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     for (charNo = 0; charNo < len; charNo++)
     {
         // remove all space characters e.g. LF, CR, space and tab
-        if (!isspace(ascii[charNo]))
+        if (!isspace((unsigned char)ascii[charNo]))
         {
             if (((ascii[charNo] >= '0') &&
                  (ascii[charNo] <= '9')) ||
@@ -176,6 +177,17 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     if (safeAsciiPtr[len - 2] == '=')
         ++pad;
 
+    // groups of 4 characters, padding only at the end
+    if (len % 4 != 0 ||
+        memchr(safeAsciiPtr, '=', (size_t)(len - pad)) != NULL)
+    {
+        puts("ERROR: You passed an invalid base64 string (padding). You get "
+             "NULL back.");
+        *flen = 0;
+        free(safeAsciiPtr);
+        return 0;
+    }
+
     *flen = 3 * len / 4 - pad;
     bin = (unsigned char *)malloc((size_t)*flen);
     if (!bin)
-- 
2.43.0


From 2335b159cd69cabb79adad441738d1e28a885bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 53/55] fix: a reference type that refers to itself made the
 backend loop forever

---
 backends/open62541/src/RefServiceImpl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 76ebbec..721a0f7 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -115,11 +115,14 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
                 if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hierachicalRefs, node->id);
                     isHierachical = true;
+                    break;
                 }
             }
             for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target))
+                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hasTypeDefRefs, node->id);
+                    break;
+                }
             }
         }
         ref = ref->next;
-- 
2.43.0


From 8ba2bc06aa94aa6a2213a6a0deee171708643dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 54/55] fix: only the supertype decides whether the backend
 treats a reference type as hierarchical

---
 backends/open62541/src/RefServiceImpl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 721a0f7..1a8051e 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -107,10 +107,11 @@ static bool isTypeDefRef(const RefServiceImpl *service, const NL_Reference *ref)
 
 static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
 {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
     while (ref) {
-        if (!ref->isForward) {
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype)) {
             for (size_t i = 0; i < service->hierachicalRefs.size; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hierachicalRefs, node->id);
-- 
2.43.0


From f439adc62b0db5b951153db5210fa1fda7d0cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 55/55] fix: an import destroyed the XML library's state while
 another parser was running

---
 src/Parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser.c b/src/Parser.c
index c02d3a0..ad8e79a 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -74,7 +74,8 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
         ctxt->myDoc = NULL;
     }
     xmlFreeParserCtxt(ctxt);
-    xmlCleanupParser();
+    // xmlCleanupParser would free what other running parsers need
+    xmlResetLastError();
     return error || ferror(file);
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0

