// C22: importing several files into one loader delivers their union
#include <algorithm>
#include "core.hpp"
#include "real.hpp"
using namespace model;

// Nodes are described with the placeholders {A} {B} for the namespaces u:A and u:B and <HC> <HTD> <T> for
// reference types; every file spells them with its own namespace indexes and aliases.
static std::string repl(std::string s, const std::string &a, const std::string &b) {
    for(size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
    return s;
}
static const std::vector<std::pair<std::string, std::string>> TYPES = {{"<HC>", "i=47"}, {"<HTD>", "i=40"}, {"<T>", "ns={A};i=500"}, {"<ENC>", "i=38"}, {"<DT>", "ns={B};s=dt"}};
struct Spelling { int a, b;          // namespace indexes of u:A and u:B (0: no such URI in this file)
    int aliases; };                  // 0 none, 1 aliases named after the type, 2 aliases whose names mean something else in other files
static Doc spell(const std::vector<Node> &nodes, const Spelling &sp, int fileNo) {
    Doc d;
    int n = std::max(sp.a, sp.b);
    for(int i = 1; i <= n; i++) d.uris.push_back(i == sp.a ? "u:A" : i == sp.b ? "u:B" : "u:other" + std::to_string(fileNo));
    auto loc = [&](std::string s) { return repl(repl(s, "{A}", std::to_string(sp.a)), "{B}", std::to_string(sp.b)); };
    auto type = [&](std::string s) {
        for(size_t i = 0; i < TYPES.size(); i++) {
            std::string nm = sp.aliases == 1 ? TYPES[i].first.substr(1, TYPES[i].first.size() - 2) : "Alias" + std::to_string((i + fileNo * 2) % TYPES.size());
            s = repl(s, TYPES[i].first, sp.aliases ? nm : loc(TYPES[i].second));
        }
        return loc(s);
    };
    if(sp.aliases) for(size_t i = 0; i < TYPES.size(); i++)
        d.aliases.push_back({sp.aliases == 1 ? TYPES[i].first.substr(1, TYPES[i].first.size() - 2) : "Alias" + std::to_string((i + fileNo * 2) % TYPES.size()), loc(TYPES[i].second)});
    for(Node x : nodes) {
        x.id = loc(x.id); x.bn = loc(x.bn);
        for(auto &a : x.attrs) a.second = type(a.second);
        for(auto &r : x.refs) { r.type = type(r.type); r.target = type(r.target); }
        for(auto &f : x.def.fields) for(auto &a : f.attrs) a.second = type(a.second);
        d.nodes.push_back(x);
    }
    return d;
}
static Node N(int cls, const char *id, std::vector<Ref> refs, const char *parent = nullptr) {
    Node n = node(cls, id, std::string("{A}:") + CLS_ELEM[cls]); n.refs = refs;
    if(parent) n.attrs = {{"ParentNodeId", parent}};
    return n;
}
static const int NT = 9;
static std::vector<Node> graph(int k) {
    Node t = N(REFERENCETYPE, "ns={A};i=500", {ref("i=45", "i=47", false)}), t2 = N(REFERENCETYPE, "ns={B};i=501", {ref("i=45", "<T>", false)}), tn = N(REFERENCETYPE, "ns={B};i=502", {ref("i=45", "i=32", false)});
    switch(k) {
    case 0:   // types below each other and their uses
        return {t, t2, N(OBJECT, "ns={A};i=1", {ref("ns={B};i=501", "ns={B};s=two")}), N(OBJECT, "ns={B};s=two", {ref("<T>", "ns={A};i=3")}), N(OBJECT, "ns={A};i=3", {})};
    case 1: { // parents by attribute, the type of the relation is stated by the parent
        return {N(METHOD, "ns={A};i=1", {}, "ns={B};s=p"), N(OBJECT, "ns={B};s=p", {ref("<T>", "ns={A};i=1"), ref("<HTD>", "ns={A};i=9")}), t, N(VARIABLE, "ns={B};i=1", {ref("i=40", "i=63")}, "ns={A};i=1"), N(OBJECTTYPE, "ns={A};i=9", {ref("i=45", "i=58", false)})};
    }
    case 2:   // cycle over all files
        return {N(OBJECT, "ns={A};i=1", {ref("<HC>", "ns={A};i=2")}), N(OBJECT, "ns={A};i=2", {ref("<T>", "ns={B};i=1")}), N(OBJECT, "ns={B};i=1", {ref("<HC>", "ns={A};i=1")}), t};
    case 3:   // a type nobody defines
        return {t, N(OBJECT, "ns={A};i=1", {ref("ns={A};i=777", "ns={B};i=2")}), N(OBJECT, "ns={B};i=2", {ref("<HC>", "ns={A};i=1", false)})};
    case 4: { // data types and encodings
        Node d = N(DATATYPE, "ns={B};s=dt", {ref("i=45", "i=22", false)}); d.def.present = true; d.def.fields = {{{{"Name", "f"}, {"DataType", "<DT>"}}}, {{{"Name", "g"}, {"DataType", "ns={A};i=5"}}}};
        Node e = N(OBJECT, "ns={A};i=6", {ref("<ENC>", "<DT>", false)}); e.bn = "Default Binary";
        Node v = N(VARIABLE, "ns={A};i=7", {ref("<HC>", "ns={A};i=6", false)}); v.attrs = {{"DataType", "<DT>"}}; v.hasValue = true; v.value = {elem("Int32", "1")};
        Node d2 = N(DATATYPE, "ns={A};i=5", {ref("i=45", "<DT>", false)});
        return {d, e, v, d2};
    }
    case 5:   // not hierarchical types, defined late
        return {N(OBJECT, "ns={A};i=1", {ref("ns={B};i=502", "ns={A};i=2"), ref("<HC>", "ns={A};i=3")}), tn, N(OBJECT, "ns={A};i=2", {ref("ns={B};i=502", "ns={A};i=1"), ref("<HC>", "ns={A};i=1")}), N(VIEW, "ns={A};i=3", {})};
    case 6: { // chain of objects in the wrong order
        std::vector<Node> v;
        for(int i = 5; i > 0; i--) v.push_back(N(OBJECT, ("ns={A};i=" + std::to_string(i)).c_str(), {ref("<HC>", i > 1 ? "ns={A};i=" + std::to_string(i - 1) : "i=85", false)}));
        return v;
    }
    case 7: { // the same identifiers in different namespaces
        return {N(OBJECT, "ns={A};i=1", {ref("<HC>", "ns={B};i=1")}), N(OBJECT, "ns={B};i=1", {ref("<HC>", "i=1000001")}), N(VARIABLE, "i=1000001", {}, "ns={B};i=1"), N(OBJECT, "ns={A};s=1", {ref("<HTD>", "ns={B};s=1")}), N(OBJECTTYPE, "ns={B};s=1", {})};
    }
    default:  // types that are subtypes of types of other files, used before they are known
        return {N(OBJECT, "ns={A};i=1", {ref("ns={B};i=501", "ns={A};i=2"), ref("ns={B};i=502", "ns={A};i=2")}), t2, tn, t, N(METHOD, "ns={A};i=2", {}, "ns={A};i=1")};
    }
}
static const Spelling SP[] = {{1, 2, 0}, {2, 1, 1}, {3, 1, 2}, {1, 2, 2}, {2, 4, 1}};
static void split() {
    int k = mc::choose(NT, "graph");
    std::vector<Node> v = graph(k);
    int files = 2 + mc::choose(2, "files");
    std::vector<std::vector<Node>> part(files);
    if(mc::flag("reversed")) std::reverse(v.begin(), v.end());
    for(auto &n : v) part[mc::choose(files, "file of node")].push_back(n);
    if(files == 3 && part[2].empty()) return;          // seen with two files
    std::vector<Spelling> sp;
    for(int i = 0; i < files; i++) {
        if(files == 3 && !mc::tier() && i == 0) { sp.push_back(SP[2]); continue; }
        sp.push_back(SP[mc::choose(files == 3 ? mc::by_tier(2, 4) : 5, "spelling")]);
    }
    bool own = mc::flag("own callback contexts");
    core::checkLeak([&] {
        core::Loader l, one; Oracle o;
        std::vector<core::NsTable> t(files);
        std::map<std::string, int> idx = {{"u:A", 5}, {"u:B", 2}, {"u:other0", 7}, {"u:other1", 8}, {"u:other2", 9}};
        l.ns.idx = idx; for(auto &x : t) x.idx = idx;
        for(int i = 0; i < files; i++) {
            Doc d = spell(part[i], sp[i], i);
            std::string x = xml(d);
            if(mc::want_sample()) mc::sample(x);
            core::NsTable &tab = own ? t[i] : l.ns;
            size_t calls = tab.calls.size();
            if(!l.importXml(x, &tab, i)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            std::vector<std::string> got(tab.calls.begin() + calls, tab.calls.end());
            if(got != d.uris) { mc::fail("addNamespace", mc::fmt("addNamespace was called %zu times for %zu URIs of the file", got.size(), d.uris.size())); return; }
            o.import(d, [&](const std::string &u) { return idx[u]; });
        }
        o.sort();
        bool r = l.sort();
        if(!core::compare(l, o, r)) return;
        if(!r) return;
        // the same as if everything had been in one document
        one.ns.idx = idx;
        if(!one.importXml(xml(spell(v, SP[0], 0)), nullptr, 7) || !one.sort()) { mc::fail("one-document", "the single document cannot be imported"); return; }
        if(core::dumpAll(one) != core::dumpAll(l)) mc::fail("union-differs", "the files deliver:\n" + core::dumpAll(l) + "\none document delivers:\n" + core::dumpAll(one));
    });
}
// what one file defines does not apply to the next one: missing namespaces and aliases, different answers
static void ownTables() {
    std::vector<Doc> ds; std::vector<core::NsTable> t(3);
    int n = mc::by_tier(2, 3);
    for(int i = 0; i < n; i++) {
        Doc d;
        int u = mc::choose(4, "uris");
        static const std::vector<std::vector<std::string>> U = {{}, {"u:A"}, {"u:A", "u:B"}, {"u:B", "u:A", "u:C"}};
        d.uris = U[u];
        int al = mc::choose(4, "aliases");
        if(al == 1) d.aliases = {{"X", "i=47"}};
        if(al == 2) d.aliases = {{"X", "i=40"}, {"Y", "ns=2;i=9"}};
        if(al == 3) d.aliases = {{"Y", "ns=1;s=y"}};
        static const std::vector<std::string> T = {"X", "Y", "i=47"}, G = {"Y", "ns=2;i=7", "ns=3;s=q", "X"};
        Node x = node(VARIABLE, "ns=" + std::to_string(1 + mc::choose(3, "namespace")) + ";i=" + std::to_string(100 + i), std::to_string(1 + i) + ":B");
        x.refs = {ref(mc::pick(i == 2 ? std::vector<std::string>{"X"} : T, "type"), mc::pick(i == 2 ? std::vector<std::string>{"Y", "ns=3;s=q"} : G, "target"), mc::tier() == 0 && i == 0)};
        x.attrs = {{"DataType", "Y"}};
        d.nodes = {x};
        t[i].idx = {{"u:A", 10 * i + 1}, {"u:B", 10 * i + 2}, {"u:C", 10 * i + 5}};
        if(mc::tier() == 0 || i != 1 || mc::flag("other answers")) { } else t[i].idx = t[0].idx;
        ds.push_back(d);
    }
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        for(int i = 0; i < n; i++) {
            if(!l.importXml(xml(ds[i]), &t[i], i)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            if(t[i].calls != ds[i].uris) mc::fail("addNamespace", "addNamespace was called with the wrong context or URIs");
            t[i].calls.clear();
            core::NsTable &ti = t[i];
            o.import(ds[i], [&](const std::string &u) { return ti.get(u); });
        }
        o.sort();
        bool r = l.sort();
        core::compare(l, o, r);
    });
}
// many files
static void many() {
    static const std::vector<int> F = {4, 10, 50, 300};
    mc::slow(60);
    int n = mc::pick(F, "files");
    bool rev = mc::flag("reversed"), types = mc::flag("types");
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        for(int i = 0; i < n; i++) {
            int k = rev ? n - 1 - i : i;
            Doc d; d.uris = {"u:" + std::to_string(k), "u:common"}; d.aliases = {{"P", k ? "ns=2;i=" + std::to_string(k - 1) : "i=85"}, {"Q", "ns=1;i=1"}};
            Node x = node(types ? REFERENCETYPE : OBJECT, "ns=2;i=" + std::to_string(k), "1:X"), y = node(OBJECT, "ns=1;i=1", "2:Y");
            x.refs = {types ? ref("i=45", k ? "P" : "i=33", false) : ref("i=47", "P", false)};
            y.refs = {ref(types ? "ns=2;i=" + std::to_string(k) : "i=35", "Q2"), ref("i=41", "Q")};
            y.refs[0].target = "ns=2;s=t";
            d.nodes = {x, y};
            if(!l.importXml(xml(d))) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            o.import(d, [&](const std::string &u) { return l.ns.get(u); });
        }
        o.sort();
        bool r = l.sort();
        core::compare(l, o, r);
    });
}
// all ordered pairs of the repository's own documents
static void repositoryDocuments() {
    auto &l = real::files(mc::by_tier(14000, 60000));
    int a = mc::choose((int)l.size(), "first file"), b = mc::choose((int)l.size() + 1, "second file");
    std::vector<std::string> x = {l[a].xml}; std::vector<Doc> d = {l[a].doc};
    mc::input(l[a].name);
    if(b < (int)l.size()) {
        if(a == b) return;
        x.push_back(l[b].xml); d.push_back(l[b].doc); mc::input(l[b].name);
        core::NsTable ns; Oracle o; std::set<std::string> ids;
        for(auto &k : d) o.import(k, [&](const std::string &u) { return ns.get(u); });
        for(auto &n : o.nodes) if(!ids.insert(n.id).second) return;      // C09
    }
    core::fullRaw(x, d);
}
int main(int argc, char **argv) {
    mc::scenario("split", split);
    mc::scenario("own-tables", ownTables);
    mc::scenario("many", many);
    mc::scenario("repository-documents", repositoryDocuments);
    return mc::run(argc, argv, {"C22", "all assignments of the nodes of 9 graphs to 2 and 3 files, each with its own namespace order and alias names, compared with the model and with one document; all pairs (thorough: triples) of files with missing namespaces and aliases; all ordered pairs of the documents in the repository"});
}
