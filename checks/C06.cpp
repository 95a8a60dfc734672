// C06: aliases resolve to the NodeId they name, wherever an alias may be used
#include "core.hpp"
using namespace model;

static const std::vector<std::string> IDS = {"i=47", "ns=1;i=7", "ns=2;i=7", "ns=1;s=a text", "ns=1;g=09087e75-8e5e-499b-954f-f2a9603db28a", "ns=2;b=YWJj", "s=zero", "ns=1;s=", "ns=9;i=4"};
static const int POS = 7;
// a document with the name used at the position; a reference type of another namespace is defined, so that it is known
static void use(Doc &d, int pos, const std::string &name, const std::string &id, int k = 0) {
    Node n = node(OBJECT, mc::fmt("i=%d", 90001 + k), "N");
    switch(pos) {
    case 0: n.refs.push_back(ref("i=47", name, false)); break;
    case 1: n.refs.push_back(ref("i=41", name)); break;
    case 2: n.cls = VARIABLE; n.attrs.push_back({"DataType", name}); break;
    case 3: n.cls = VARIABLETYPE; n.attrs.push_back({"DataType", name}); break;
    case 4: n.cls = DATATYPE; n.def.present = true; n.def.fields = {{{{"Name", "a"}}}, {{{"Name", "b"}, {"DataType", name}}}, {{{"DataType", "i=1"}, {"Name", "c"}}}}; break;
    case 5: {
        n.refs.push_back(ref(name, "i=85", false));
        NodeId t = parseId(id);
        if(t.ns) { Node rt = node(REFERENCETYPE, id, "1:RT"); rt.refs.push_back(ref("i=45", "i=47", false)); bool have = false; for(auto &x : d.nodes) have |= x.id == id; if(!have) d.nodes.push_back(rt); }
        break;
    }
    case 6: n.refs.push_back(ref("i=40", name)); break;
    }
    d.nodes.push_back(n);
}
static Doc base() { Doc d; d.uris = {"http://a/", "http://b/"}; return d; }
// every use position x identifier x number of aliases x which of them is used
static void positions() {
    static const std::vector<int> N = {1, 2, 3, 10, 299, 300, 301, 302, 599, 600, 601, 1000};
    int n = mc::pick(N, "aliases");
    int which = mc::choose(5, "which");
    int idx = which == 0 ? 0 : which == 1 ? n - 1 : which == 2 ? n / 2 : which == 3 ? 299 : 300;
    if(idx >= n || (which && idx == 0)) return;
    int pos = mc::choose(POS, "position");
    std::string id = mc::pick(IDS, "id");
    if(pos == 5 && parseId(id).ns > 2) return;
    Doc d = base();
    for(int i = 0; i < n; i++) d.aliases.push_back({mc::fmt("A%d", i), i == idx ? id : mc::fmt("ns=1;%s%d", i % 3 ? "i=" : "s=n", i)});
    use(d, pos, mc::fmt("A%d", idx), id);
    core::full(d);
}
// long alias lists
static void many() {
    static const std::vector<int> N = {899, 900, 901, 1200, 1201, 1799, 1800, 1801, 4000, 10001, 30000};
    mc::slow(60);
    int n = mc::pick(N, "aliases"), part = mc::choose(3, "which"), pos = mc::choose(POS, "position");
    int idx = part == 0 ? 0 : part == 1 ? n / 2 : n - 1;
    Doc d = base();
    for(int i = 0; i < n; i++) d.aliases.push_back({mc::fmt("A%d", i), i == idx ? "ns=2;s=used" : mc::fmt("ns=1;%s%d", i % 3 ? "i=" : "s=n", i)});
    use(d, pos, mc::fmt("A%d", idx), "ns=2;s=used");
    core::full(d);
}
// several aliases used at several places: copies must not share anything
static void several() {
    int n = mc::by_tier(2, 3);
    static const std::vector<std::string> ID = {"ns=1;s=first", "ns=2;i=12", "ns=1;b=YWJj"};
    Doc d = base();
    for(int i = 0; i < 2; i++) d.aliases.push_back({i ? "AliasB" : "Alias", mc::pick(ID, "id")});
    for(int k = 0; k < n; k++) { int pos = mc::choose(POS, "position"), a = mc::choose(2, "alias"); use(d, pos, d.aliases[a].first, d.aliases[a].second, k); }
    if(mc::flag("again")) { Node x = d.nodes.back(); x.id = "i=95000"; if(x.cls != REFERENCETYPE) d.nodes.push_back(x); }
    core::full(d);
}
// names are compared exactly; unknown names deliver the null NodeId
static void names() {
    static const std::vector<std::string> NM = {"Has", "HasX", "hasx", "Ha", "HasX ", "i=5", "ns=1;i=5", "\xc3\xa4", "a&b", "H", "HasXHasX"};
    Doc d = base();
    int n = mc::choose(mc::by_tier(3, 4), "aliases");
    for(int i = 0; i < n; i++) {
        std::string nm = mc::pick(NM, "name");
        for(auto &a : d.aliases) if(a.first == nm) return;             // one name twice: not specified
        d.aliases.push_back({nm, mc::fmt(i % 2 ? "ns=1;s=%d" : "ns=1;i=%d", 100 + i)});
    }
    std::string used = mc::pick(NM, "used");
    int pos = mc::choose(POS, "position");
    if(pos == 5) {                                                   // the type may be unknown: define what may come out
        std::string id; for(auto &a : d.aliases) if(a.first == used) id = a.second;
        if(id.empty()) id = used;
        use(d, pos, used, id);
    } else use(d, pos, used, "");
    core::full(d);
}
// aliases whose value is odd, aliases without use, empty alias section, alias of an alias
static void values() {
    static const std::vector<std::string> V = {"", "i=", "x", "ns=1;", "ns=1;x=5", "i=47", "ns=1;i=4294967295", "ns=1;s=i=5", "ns=1;s=ns=1;i=5", "Other", "ns=1;s=a;b=c", "ns=1;s= sp ace "};
    Doc d = base();
    bool first = mc::flag("order");
    std::string v = mc::pick(V, "value");
    d.aliases = {{"Other", "ns=1;i=33"}, {"A", v}};
    if(first) std::swap(d.aliases[0], d.aliases[1]);
    int pos = mc::choose(POS, "position");
    if(pos == 5 && parseId(v).ns > 2) return;
    use(d, pos, "A", v.empty() ? "i=0" : v);
    if(mc::flag("text of the target is an alias too")) use(d, 0, "Other", "", 1);
    core::full(d);
}
// writing the alias out gives the same nodes
static void writtenOut() {
    int p1 = mc::choose(POS, "position"), p2 = mc::choose(POS, "position");
    std::string a = mc::pick(IDS, "id"), b = mc::pick(IDS, "id");
    if((p1 == 5 && parseId(a).ns > 2) || (p2 == 5 && parseId(b).ns > 2)) return;
    Doc d1 = base(), d2 = base();
    d1.aliases = {{"A", a}, {"B", b}};
    use(d1, p1, "A", a); use(d1, p2, "B", b, 1);
    use(d2, p1, a, a); use(d2, p2, b, b, 1);
    core::Loader l1, l2; NodesetLoader_Logger *x = &l1.logger; (void)x;
    bool r1 = l1.importXml(xml(d1), nullptr, 0) && l1.sort(), r2 = l2.importXml(xml(d2), nullptr, 1) && l2.sort();
    if(r1 != r2) { mc::fail("written-out-result", mc::fmt("with aliases %d, written out %d", r1, r2)); return; }
    std::string s1 = core::dumpAll(l1), s2 = core::dumpAll(l2);
    mc::state(s1); mc::validated();
    if(s1 != s2) mc::fail("written-out-differs", "with aliases:\n" + s1 + "\nwritten out:\n" + s2);
}
// every character, alone and in pairs, as the name of an alias
static void characters() {
    std::string t = core::pickChars("name");
    Doc d; d.uris = {"u:a"};
    d.aliases = {{"Q", "i=46"}, {t, "ns=1;i=7"}};
    Node n = node(VARIABLE, "ns=1;i=1", "1:V");
    n.attrs = {{"DataType", t}};
    n.refs = {ref("i=35", "i=85", false), ref("i=35", t), ref("i=35", "Q")};
    d.nodes = {n};
    core::full(d);
}
int main(int argc, char **argv) {
    mc::scenario("positions", positions);
    mc::scenario("several", several);
    mc::scenario("many", many);
    mc::scenario("names", names);
    mc::scenario("values", values);
    mc::scenario("written-out", writtenOut);
    mc::scenario("characters", characters);
    return mc::run(argc, argv, {"C06", "up to 30000 aliases; every use position, identifier kind and use index around the list's capacity"});
}
