// Driver for the core library: runs API calls of the real code with recording callbacks and produces
// dumps in the format of the model.
#pragma once
#include <NodesetLoader/NodesetLoader.h>
#include <map>
#include <string>
#include <vector>
#include "mc.hpp"
#include "model.hpp"

namespace core {
struct Log { int level; std::string text; };
struct Delivered { std::string id, dump; int cls; };
struct World;                                   // one caller-side environment
struct NsTable {                                // what addNamespace answers
    std::map<std::string, int> idx; int next = 1;
    std::vector<std::string> calls;
    std::function<void()> on;                    // called by addNamespace
    int get(const std::string &u) { auto it = idx.find(u); return it != idx.end() ? it->second : (idx[u] = next++); }
};
// a scratch file with the given content (name unique per slot)
std::string file(const std::string &content, int slot = 0);
std::string nid(const UA_NodeId *id);
std::string dumpNode(const NL_Node *n, bool ext);

NodesetLoader_ExtensionInterface *extInterface();
std::string extLog(void *data);                    // "~" for NULL
void extReset();
std::vector<std::string> extLogs();               // what the extension callbacks saw, per newExtension call

struct Loader {
    NodesetLoader_Logger logger;
    std::vector<Log> logs;
    NodesetLoader *l = nullptr;
    NsTable ns;
    bool ownLogger = true, withExt = false;
    NL_FileContext fc;
    std::string badCalls;
    NodesetLoader_ExtensionInterface extIf;
    explicit Loader(bool create = true, NL_ReferenceService *svc = nullptr);
    ~Loader();                                   // deletes the loader if del() was not called
    void open(NL_ReferenceService *svc = nullptr);
    bool importPath(const char *path, NsTable *table = nullptr);
    bool importXml(const std::string &xml, NsTable *table = nullptr, int slot = 0);
    bool sort();
    void del();
    std::map<int, std::vector<Delivered>> deliver();
    std::vector<model::Bidi> bidi();
    int errors() const { int n = 0; for(auto &x : logs) n += x.level == NODESETLOADER_LOGLEVEL_ERROR; return n; }
};
// compares one loaded & sorted loader with the oracle; reports through mc::fail with keys prefix:...
// returns false after a failure
bool compare(Loader &l, model::Oracle &o, bool sortResult, const std::string &prefix = "");
bool compareNodes(Loader &l, model::Oracle &o, const std::string &prefix = "");
std::string dumpAll(Loader &l);                  // order-insensitive dump of everything delivered
// full run: import docs, sort, compare, delete; leak check included
void check(const std::vector<model::Doc> &docs, const std::string &prefix = "");
void checkLeak(const std::function<void()> &run, const std::string &prefix = "");
inline void full(const std::vector<model::Doc> &docs) { checkLeak([&] { check(docs); }); }
// like full, for given spellings of the documents
void fullRaw(const std::vector<std::string> &xmls, const std::vector<model::Doc> &docs, bool withExt = false);
// a text of one or two characters: every ASCII character XML allows, and characters
// of every UTF-8 length and lead byte class (thorough: all pairs of them)
std::string pickChars(const char *label);
inline void full(const model::Doc &d) { full(std::vector<model::Doc>{d}); }
}  // namespace core
