// C17: extension callbacks are bracketed and see the extension's content in order
#include "core.hpp"
using namespace model;

static const std::vector<std::vector<std::string>> NAMES = {{"A", "Extension", "Extensions"}, {"UAObject", "Value", "A"}, {"References", "Reference", "DisplayName"}, {"Field", "Definition", "Extension"}, {"A", "AA", "a"}, {"UANodeSet", "Alias", "Uri"}};
static const std::vector<std::string> TEXT = {"", "t", " a&b\n", "   "};
static const std::vector<std::vector<Attr>> ATTRS = {{}, {{"k", "v"}}, {{"NodeId", "ns=1;i=5"}, {"b", ""}}, {{"x", "a&<\"b"}, {"Name", "N"}, {"y", "2"}}};
static std::string ws;
static Elem tree(int n, const std::vector<std::string> &names, int rich);
static std::vector<Elem> forest(int n, const std::vector<std::string> &names, int rich) {
    std::vector<Elem> r;
    while(n > 0) { int k = 1 + mc::choose(n, "elements of subtree"); r.push_back(tree(k, names, rich)); n -= k; }
    return r;
}
static Elem tree(int n, const std::vector<std::string> &names, int rich) {
    Elem e;
    e.name = mc::pick(names, "name");
    e.attrs = ATTRS[mc::choose(rich ? (int)ATTRS.size() : 2, "attributes")];
    if(n == 1) e.text = TEXT[mc::choose(rich ? (int)TEXT.size() : 2, "text")];
    else { e.kids = forest(n - 1, names, rich); e.ws = ws; }
    return e;
}
// imports the documents (with an interface where use[i]), compares the nodes and the callbacks of every extension
static void run(const std::vector<Doc> &docs, const std::vector<bool> &use, const std::vector<std::string> &xmls = {}) {
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        std::vector<std::string> want;
        for(size_t i = 0; i < docs.size(); i++) {
            l.withExt = o.withExtensions = use[i];
            std::string x = xmls.empty() ? xml(docs[i]) : xmls[i];
            if(mc::want_sample()) mc::sample(x);
            if(!l.importXml(x, nullptr, (int)i)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            o.import(docs[i], [&](const std::string &u) { return l.ns.get(u); });
            if(use[i]) for(auto &n : docs[i].nodes) if(n.hasExt) for(auto &e : n.exts) want.push_back(extDump(e));
            std::vector<std::string> got = core::extLogs();
            if(got != want) {
                std::string m = mc::fmt("%zu extensions reported, %zu expected", got.size(), want.size());
                for(size_t k = 0; k < got.size() || k < want.size(); k++) {
                    std::string a = k < got.size() ? got[k] : "nothing", b = k < want.size() ? want[k] : "nothing";
                    if(a != b) { m += "\nreported " + a + "\nexpected " + b; break; }
                }
                mc::fail("callbacks", m);
                return;
            }
        }
        o.sort();
        bool r = l.sort();
        l.withExt = true;
        core::compare(l, o, r);
        if(core::extLogs() != want) mc::fail("late-callbacks", "extension callbacks are called after the import");
    });
}
static Doc doc(const std::vector<std::vector<Elem>> &exts, int cls = OBJECT) {
    Doc d; d.uris = {"u:a"};
    Node n = node(cls, "ns=1;i=1", "1:N"), m = node(OBJECT, "ns=1;i=2", "1:M");
    n.refs = {ref("i=35", "i=85", false)}; n.dn = txt("display");
    n.hasExt = true; n.exts = exts;
    d.nodes = {n, m};
    return d;
}
static void contents() {
    int n = mc::choose(mc::by_tier(5, 6), "elements");
    auto &names = n > 4 ? NAMES[0] : n > 3 ? NAMES[mc::choose(mc::by_tier(1, 6), "names")] : mc::pick(NAMES, "names");
    ws = n < 5 && mc::flag("indented") ? "\n  " : "";
    run({doc({forest(n, names, n < 3)})}, {true});
}
// nodes of every class with 0..2 extensions, neighbours, with and without interface
static std::vector<Elem> content(int k) {
    ws = "";
    switch(k) {
    case 1: return {elem("A", "1")};
    case 2: return {elem("Extension", std::vector<Elem>{elem("Extensions"), elem("Extension", "deep")}), elem("B")};
    case 3: return {elem("UAObject", std::vector<Elem>{elem("DisplayName", "no"), elem("Value", std::vector<Elem>{elem("Int32", "1")})})};
    }
    return {};
}
static void nodes() {
    Doc d; d.uris = {"u:a"};
    int n = mc::by_tier(2, 3);
    bool use = mc::flag("interface");
    for(int i = 0; i < n; i++) {
        Node x = node(i == 0 ? mc::choose(NCLS, "class") : mc::tier() || i == 1 ? (mc::flag("variable") ? VARIABLE : DATATYPE) : OBJECT, "ns=1;i=" + std::to_string(i + 1), "1:N");
        int k = mc::choose(4, "extensions");
        x.hasExt = k > 0;
        for(int e = 1; e < k; e++) x.exts.push_back(content(mc::choose(4, "content")));
        if(x.cls == VARIABLE) { x.hasValue = true; x.value = {elem("Int32", "4")}; }
        x.refs = {ref("i=35", "i=85", false)};
        d.nodes.push_back(x);
    }
    run({d}, {use});
}
// files with and without interface
static void files() {
    std::vector<Doc> ds; std::vector<bool> use;
    for(int i = 0; i < 3; i++) {
        use.push_back(mc::flag("interface"));
        Doc d; d.uris = {"u:a"};
        Node x = node(OBJECT, "ns=1;i=" + std::to_string(i + 1), "1:N");
        int k = mc::choose(4, "content");
        x.hasExt = mc::flag("extensions");
        if(x.hasExt) { x.exts = {content(k)}; if(k == 2) x.exts.push_back(content(1)); }
        else if(k) return;
        d.nodes = {x};
        ds.push_back(d);
    }
    run(ds, use);
}
// Extensions outside nodes are not reported; Extension elements elsewhere neither
static void outside() {
    Doc d = doc({{elem("A", "in")}});
    static const std::vector<std::string> E = {"<Extensions><Extension><x>1</x></Extension></Extensions>", "<Extension><x/></Extension>", "<Extensions/>", "<Unknown><Extensions><Extension/></Extensions></Unknown>", "<Extensions><Extension><Extension><UAObject NodeId='i=3'/></Extension></Extension><Extension/></Extensions>"};
    auto wh = std::vector<std::string>();
    xml(d, [&](const char *w) { wh.push_back(w); return std::string(); });
    int p = mc::choose((int)wh.size(), "place"), k = mc::choose((int)E.size(), "extension");
    const std::string &w = wh[p];
    if(w[0] == '@' || w == "prolog" || w == "epilog") return;
    if(w == "node" && E[k].compare(0, 11, "<Extensions") == 0) return;
    if(w == "exts" && E[k].compare(0, 11, "<Extension>") == 0) return;
    bool use = mc::flag("interface");
    int i = 0;
    run({d}, {use}, {xml(d, [&](const char *) { return i++ == p ? E[k] : std::string(); })});
}
static void sizes() {
    int kind = mc::choose(4, "kind"), n = mc::choose(mc::by_tier(60, 230), "size");
    std::vector<std::vector<Elem>> x(1);
    switch(kind) {
    case 0: for(int i = 0; i < n; i++) x[0].push_back(elem("E" + std::to_string(i), std::to_string(i))); break;
    case 1: { Elem e = elem("Extension", "b"); for(int i = 0; i < n; i++) e = elem(i % 3 ? "Extension" : "Extensions", std::vector<Elem>{e}); x[0] = {e}; break; }
    case 2: x.clear(); for(int i = 0; i < n; i++) x.push_back({elem("E", std::to_string(i))}); break;
    case 3: { Elem e = elem("E", std::string(n * 41, 'x')); for(int i = 0; i < n; i++) e.attrs.push_back({"a" + std::to_string(i), std::string(i * 3, 'v')}); x[0] = {e}; break; }
    }
    run({doc(x)}, {true});
}
// several Extensions elements in one node; damage inside of an extension
static void blocks() {
    Doc d = doc({{elem("A", "1")}, {elem("B", "2")}});
    std::string s = xml(d);
    static const std::vector<std::string> SEP = {"</Extensions><Extensions>", "</Extensions><Description>x</Description><Extensions>", "<Other/>", "</Extensions><Extensions/><Extensions>"};
    int k = mc::choose((int)SEP.size(), "separation");
    size_t p = s.find("</Extension><Extension>") + 12;
    s.insert(p, SEP[k]);
    if(k == 1) d.nodes[0].desc = txt("x");
    run({d}, {mc::flag("interface")}, {s});
}
// every character, alone and in pairs, in texts and attributes of extensions
static void characters() {
    bool attr = mc::flag("attribute"), inner = mc::flag("inner");
    std::string t = core::pickChars("text");
    Elem e = elem("A", attr ? "" : t);
    if(attr) e.attrs = {{"x", "1"}, {"k", t}};
    if(inner) e = elem("B", std::vector<Elem>{e, elem("C", "x")});
    run({doc({{e}})}, {true});
}
int main(int argc, char **argv) {
    mc::scenario("contents", contents);
    mc::scenario("nodes", nodes);
    mc::scenario("files", files);
    mc::scenario("outside", outside);
    mc::scenario("sizes", sizes);
    mc::scenario("blocks", blocks);
    mc::scenario("characters", characters);
    return mc::run(argc, argv, {"C17", "all extension contents with up to 4 (thorough: 5) elements over 6 name alphabets, node classes x 0..2 extensions x interface, three files with and without interface, extensions at every other place"});
}
