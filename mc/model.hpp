// Abstract nodeset documents, their XML spelling, and the reference model (oracle) of what the loader
// must deliver for them. Independent of the code under test and of the open62541 stand-in.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model {
enum Cls { OBJECT, OBJECTTYPE, VARIABLE, DATATYPE, METHOD, REFERENCETYPE, VARIABLETYPE, VIEW, NCLS };
extern const char *CLS_ELEM[NCLS];
inline bool isInstance(int c) { return c == OBJECT || c == VARIABLE || c == METHOD || c == VIEW; }

typedef std::pair<std::string, std::string> Attr;
struct Txt { bool present = false, hasLocale = false, hasText = false; std::string locale, text; };
Txt txt(const std::string &text);
Txt txt(const std::string &text, const std::string &locale);
struct Ref { std::string type, target; std::string fwd; bool hasFwd = false; };   // as written
Ref ref(const std::string &type, const std::string &target, bool fwd = true);
struct Field { std::vector<Attr> attrs; };
struct Def { bool present = false; std::vector<Attr> attrs; std::vector<Field> fields; };
struct Elem {                                       // generic XML element (values, extensions)
    std::string name; std::vector<Attr> attrs; std::string text; std::vector<Elem> kids;
    std::string ws;                                 // whitespace written before each child and the end tag
};
Elem elem(const std::string &name, const std::string &text = "");
Elem elem(const std::string &name, std::vector<Elem> kids);
struct Node {
    int cls = OBJECT;
    std::string id, bn;
    bool hasId = true, hasBn = true;
    std::vector<Attr> attrs;                        // further attributes
    Txt dn, desc, inv;
    std::vector<Ref> refs;
    bool emptyRefs = false;
    Def def;
    bool hasValue = false;
    std::vector<Elem> value;                        // children of <Value>
    std::vector<std::vector<Elem>> exts;            // one entry per <Extension>
    bool hasExt = false;
};
Node node(int cls, const std::string &id, const std::string &bn);
struct Doc {
    std::vector<std::string> uris;
    bool hasUris = false;
    std::vector<std::pair<std::string, std::string>> aliases;
    std::vector<Node> nodes;
};
std::string esc(const std::string &s, bool attr = false);
// hook: called at every position where unknown content may be inserted; may return XML
typedef std::function<std::string(const char *where)> Inject;
std::string nodeXml(const Node &n, const Inject &inj = nullptr);
std::string xml(const Doc &d, const Inject &inj = nullptr);

// --- the model ---
struct NodeId { int ns = 0; char t = 'i'; std::string v = "0"; bool null() const { return ns == 0 && t == 'i' && v == "0"; }
    std::string str() const; bool operator==(const NodeId &o) const { return ns == o.ns && t == o.t && v == o.v; } };
NodeId parseId(const std::string &s);              // file namespaces, invalid: null
struct XRef { std::string type, target; bool fwd; };
struct XNode {
    int cls; std::string id; std::string attrs;     // canonical attribute dump
    std::string parent;                             // "" none
    std::vector<XRef> refs;
    std::string value, def, ext;
    std::string dataType; std::vector<std::string> fieldTypes;   // resolved
    int bnNs = 0; std::string bnName;
    int file;
    size_t index;                                   // in its document
};
typedef std::function<int(const std::string &uri)> NsFn;
struct Bidi { std::string source, target, type; };
struct Oracle {
    std::vector<XNode> nodes;
    std::vector<Bidi> bidi;
    int files = 0;
    bool withExtensions = false;
    std::set<std::string> extraHier, extraKnown;     // reference types the service knows beforehand
    void import(const Doc &d, const NsFn &ns);
    // results of sort:
    bool sortOk, unresolved, cyclic;
    std::map<std::string, bool> hierType;           // reference type -> hierarchical (known types only)
    std::vector<std::set<std::string>> dumps;       // acceptable dumps of each node
    std::vector<std::pair<std::string, std::string>> edges;   // parent -> child
    void sort();
    const XNode *find(const std::string &id) const;
    mutable std::multimap<std::string, size_t> byId;
};
std::string valueDump(const Node &n);
const std::string *attr(const std::vector<Attr> &a, const char *n);   // null: absent
bool unb64(const std::string &in, std::string &out);
std::string hex(const std::string &s);
std::string extDump(const std::vector<Elem> &x);   // callbacks for one extension
bool nsHier(const NodeId &id);                       // hierarchical reference type of namespace 0 (and HasEncoding)
// true if order (ids of one class, delivered order) respects reachability over edges
bool orderOk(const std::vector<std::string> &order, const std::vector<std::pair<std::string, std::string>> &edges, std::string *why);
std::string quote(const char *s);                    // NULL -> ~
std::string refsDump(std::vector<XRef> refs);
}  // namespace model
