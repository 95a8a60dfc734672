#ifndef SHIM_OPEN62541_LOG_H
#define SHIM_OPEN62541_LOG_H
#include "../types.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { UA_LOGLEVEL_TRACE = 100, UA_LOGLEVEL_DEBUG = 200, UA_LOGLEVEL_INFO = 300,
    UA_LOGLEVEL_WARNING = 400, UA_LOGLEVEL_ERROR = 500, UA_LOGLEVEL_FATAL = 600 } UA_LogLevel;
typedef enum { UA_LOGCATEGORY_NETWORK = 0, UA_LOGCATEGORY_SECURECHANNEL, UA_LOGCATEGORY_SESSION,
    UA_LOGCATEGORY_SERVER, UA_LOGCATEGORY_CLIENT, UA_LOGCATEGORY_USERLAND, UA_LOGCATEGORY_SECURITYPOLICY,
    UA_LOGCATEGORY_EVENTLOOP, UA_LOGCATEGORY_PUBSUB, UA_LOGCATEGORY_DISCOVERY } UA_LogCategory;
typedef struct UA_Logger {
    void (*log)(void *logContext, UA_LogLevel level, UA_LogCategory category, const char *msg, va_list args);
    void *context;
    void (*clear)(struct UA_Logger *logger);
} UA_Logger;
#define UA_SHIM_LOG(NAME, LEVEL)                                                                    \
    static inline void UA_LOG_##NAME(const UA_Logger *logger, UA_LogCategory category, const char *msg, ...) { \
        if(!logger || !logger->log) return;                                                         \
        va_list args; va_start(args, msg); logger->log(logger->context, LEVEL, category, msg, args); va_end(args); }
UA_SHIM_LOG(TRACE, UA_LOGLEVEL_TRACE)
UA_SHIM_LOG(DEBUG, UA_LOGLEVEL_DEBUG)
UA_SHIM_LOG(INFO, UA_LOGLEVEL_INFO)
UA_SHIM_LOG(WARNING, UA_LOGLEVEL_WARNING)
UA_SHIM_LOG(ERROR, UA_LOGLEVEL_ERROR)
UA_SHIM_LOG(FATAL, UA_LOGLEVEL_FATAL)
#ifdef __cplusplus
}
#endif
#endif
