// Driver and reference model for the open62541 backend: loads files into the stand-in server and compares
// the resulting address space with what the documents require.
#pragma once
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "core.hpp"
#include "mc.hpp"
#include "model.hpp"
#include "shim_server.h"

namespace mtypes { struct Reg; }
namespace back {
typedef std::tuple<std::string, std::string, std::string> Edge;      // source, reference type, target
struct SNode {
    int cls = 0; std::string attrs, ctx, value = "none";
    std::string dims;                                  // "*": not judged
    bool abstract = false;
};
struct Alt { std::string a, b; };                       // one reference a -> b of any type may exist
struct Space {
    std::map<std::string, SNode> nodes;
    std::set<Edge> refs;
    std::vector<std::string> ns;
    size_t types = 0;                                   // registered custom data types (snapshots only)
    std::vector<Alt> alts;                              // expected spaces only
    bool tree(const std::string &leaf, const std::string &root) const;   // over HasSubtype
};
struct Server {
    UA_Server *s;
    Server();
    ~Server();
    void reverseBrowse(bool on);
    bool load(const std::string &xml, bool ext = false, int slot = 0);
    bool loadPath(const char *path, bool ext = false);
    Space snapshot(bool values = true) const;
    int errors() const;                                 // error messages logged
    void del();
};
// what loading d into a server with address space `before` must give; nodes the server may refuse for want of a
// valid parent or type are taken over from `actual`
struct Expect { bool ok; bool cyclic, unresolved; Space after; };
// with reg: the registered data types are followed there, and values are judged
Expect apply(const Space &before, const model::Doc &d, const Space &actual, bool ext = false, mtypes::Reg *reg = nullptr);
// a failed load: nothing but namespaces may have been added
bool untouched(const Space &before, const Space &after, const std::string &prefix = "");
bool compare(const Space &actual, const Space &expected, const std::string &prefix = "");
// loads the documents one after another into one server and compares after each load; leak check included
void full(const std::vector<model::Doc> &docs, bool ext = false, const std::vector<std::string> &preNs = {});
inline void full(const model::Doc &d, bool ext = false) { full(std::vector<model::Doc>{d}, ext); }
std::string dumpVariant(const UA_Variant &v);
std::string dumpData(const void *p, const UA_DataType *t, int depth = 0);
// shorthand for nodes with a parent
model::Node under(int cls, const std::string &id, const std::string &bn, const std::string &parent = "i=85", const std::string &type = "i=35");
// a node of the class with a usual parent in namespace 0
model::Node base(int cls, const std::string &id, const std::string &bn);
// a data type and one of its fields
model::Node dataType(const std::string &id, const std::string &bn, const std::string &super = "i=22", bool abstract = false);
void field(model::Node &n, const std::string &name, const std::string &type, bool array = false, bool optional = false);
}  // namespace back
