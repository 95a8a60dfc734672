// What a check may see and do with the stand-in server besides the open62541 API.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "open62541/server.h"

struct ShimNode {
    UA_NodeId id;
    UA_NodeClass cls;
    UA_QualifiedName bn;
    const UA_DataType *attrType;
    void *attr;
    void *ctx;
    bool initial;                                    // part of namespace 0 as the server starts
    std::set<std::pair<std::string, std::string>> out, in;   // (reference type, other end)
};
struct ShimCall { std::string what; UA_StatusCode status; };
struct UA_Server {
    UA_ServerConfig config;
    UA_Logger logger;
    std::map<std::string, ShimNode *> nodes;         // by canonical NodeId
    std::vector<std::string> namespaces;
    std::vector<std::pair<int, std::string>> log;    // level, text
    std::vector<ShimCall> calls;                     // mutating calls, in order
    std::map<std::string, int> refused;              // addNode attempts that failed, by NodeId
    size_t openContinuationPoints = 0;
    bool reverseBrowse = false;                      // the order of browse results is the server's choice
    std::vector<std::vector<UA_ReferenceDescription>> pending;
    UA_UInt32 nextId = 50000;
};
std::string shimId(const UA_NodeId *id);             // "ns:t=value", the canonical form of the checks
extern "C" {
// defined by checks that count allocations: the server's own memory is not the library's
void shim_enter(void) __attribute__((weak));
void shim_leave(void) __attribute__((weak));
}
