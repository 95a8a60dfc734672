// C10: every API history is memory safe and delete releases everything
#include "core.hpp"
using namespace model;

static Doc rich(int k) {
    Doc d; d.uris = {mc::fmt("http://a%d/", k), "http://shared/"};
    d.aliases = {{"HasComponent", "i=47"}, {"Str", mc::fmt("ns=1;s=alias%d", k)}};
    int b = k * 100;
    auto id = [&](int i) { return i % 2 ? mc::fmt("ns=1;s=node %d", b + i) : mc::fmt("ns=1;i=%d", b + i + 1); };
    Node rt = node(REFERENCETYPE, id(1), "1:RT"); rt.refs = {ref("i=45", "i=47", false)}; rt.inv = txt("inv", "en");
    Node o = node(OBJECT, id(2), "1:O"); o.dn = txt("Display", "de"); o.desc = txt("Desc"); o.refs = {ref("i=35", "i=85", false), ref("i=40", "Str"), ref("i=40", "i=58"), ref(id(1), id(3))};
    Node v = node(VARIABLE, id(3), "1:V"); v.attrs = {{"DataType", "Str"}, {"ParentNodeId", id(2)}}; v.hasValue = true;
    v.value = {elem("ListOfExtensionObject", std::vector<Elem>{elem("ExtensionObject", std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "i=5")}), elem("Body", std::vector<Elem>{elem("S", std::vector<Elem>{elem("A", "1"), elem("B", std::vector<Elem>{elem("C")})})})})})};
    v.hasExt = true; v.exts = {{elem("E", "text")}, {elem("F", std::vector<Elem>{elem("G")})}};
    Node t = node(DATATYPE, id(5), "1:DT"); t.def.present = true; t.def.fields = {{{{"Name", "a"}, {"DataType", "Str"}}}, {{{"Name", "b"}, {"DataType", "ns=1;s=x"}}}}; t.refs = {ref("i=45", "i=22", false)};
    Node e = node(OBJECT, id(7), "Default Binary"); e.refs = {ref("i=38", id(5), false), ref("i=39", "ns=1;s=d")};
    Node m = node(METHOD, id(9), "1:M"); m.attrs = {{"ParentNodeId", id(2)}};
    Node w = node(VIEW, id(11), "1:W"); w.attrs = {{"ParentNodeId", "ns=1;s=elsewhere"}};
    Node vt = node(VARIABLETYPE, id(13), "1:VT"); vt.attrs = {{"DataType", "ns=1;s=y"}}; vt.hasValue = true; vt.value = {elem("Int32", "5")};
    Node user = node(OBJECT, id(15), "1:U"); user.refs = {ref(id(1), id(2), false), ref("ns=1;s=late", id(3))};
    Node late = node(REFERENCETYPE, "ns=1;s=late", "1:Late"); late.refs = {ref("i=45", id(1), false)};
    d.nodes = {o, v, t, e, m, w, vt, rt};
    if(k < 2) { d.nodes.push_back(user); d.nodes.push_back(late); }
    return d;
}
static const int NFILES = 10;
static std::vector<std::string> FILES;
static void build() {
    if(!FILES.empty()) return;
    FILES.push_back(xml(rich(0)));
    FILES.push_back(xml(rich(1)));
    std::string x = xml(rich(2));
    FILES.push_back(x.substr(0, x.find("<C/>")));                          // cut off inside of a value
    size_t p = x.find("<Reference "); std::string y = x; y.insert(y.find("</Reference>", p), "<broken"); FILES.push_back(y);   // malformed inside of a reference
    FILES.push_back("");                                                   // empty
    Doc dup = rich(0); dup.nodes.resize(3); FILES.push_back(xml(dup));     // duplicates of file 0
    Doc cyc; cyc.uris = {"http://shared/"}; Node a = node(OBJECT, "ns=1;s=cyc a", "1:A"), b = node(OBJECT, "ns=1;s=cyc b", "1:B");
    a.refs = {ref("i=35", "ns=1;s=cyc b")}; b.refs = {ref("i=35", "ns=1;s=cyc a")}; cyc.nodes = {a, b}; FILES.push_back(xml(cyc));
    Doc un; un.uris = {"http://shared/"}; Node u = node(VARIABLE, "ns=1;s=unres", "1:Un"), ur = node(REFERENCETYPE, "ns=1;s=unrestype", "1:UnT");
    u.refs = {ref("ns=1;s=missing type", "i=85", false), ref("i=47", "i=85", false), ref("ns=1;s=unrestype", "i=85", false)}; u.hasValue = true; u.value = {elem("String", "x")};
    ur.refs = {ref("ns=1;s=missing type", "ns=1;s=unres", false)};
    un.nodes = {u, ur}; FILES.push_back(xml(un));
    Doc comp; comp.uris = {"http://shared/"}; Node c = node(REFERENCETYPE, "ns=1;s=missing type", "1:C"); c.refs = {ref("i=45", "i=47", false)}; comp.nodes = {c}; FILES.push_back(xml(comp));  // completes it
    FILES.push_back("<UANodeSet/>");
}
static bool expectImport(int f) { return f != 2 && f != 3 && f != 4; }
static void nodeCount(void *c, NL_Node *n) { mc::OutLib o; (*(size_t *)c)++; (void)core::dumpNode(n, true); }
static void histories(int depth) {
    build();
    mc::slow(20);
    int setup = mc::choose(2, "setup");
    std::vector<int> ops;
    for(int i = 0; i < depth; i++) { int o = mc::choose(NFILES + 5, "operation"); if(o == NFILES + 4) break; ops.push_back(o); }
    std::string hist; for(int o : ops) hist += mc::fmt("%d ", o);
    mc::input(hist);
    if(mc::want_sample()) mc::sample("operations: " + hist);
    core::checkLeak([&] {
        core::Loader l;
        l.withExt = setup == 1;
        std::string log;
        for(int o : ops) {
            if(o < NFILES) {
                bool r = o == 4 && setup == 1 ? l.importPath("/nonexistent/file.xml") : l.importXml(FILES[o], nullptr, 0);
                if(r != expectImport(o)) { mc::fail("import-result", mc::fmt("import of file %d returned %d after %s", o, r, log.c_str())); return; }
                log += mc::fmt("i%d ", r);
            } else if(o == NFILES) log += mc::fmt("s%d ", l.sort());
            else if(o == NFILES + 1) {
                size_t n = 0;
                for(int c = 0; c < NCLS; c++) { mc::InLib in; NodesetLoader_forEachNode(l.l, (NL_NodeClass)c, &n, nodeCount); }
                log += mc::fmt("n%zu ", n);
            } else if(o == NFILES + 2) log += mc::fmt("b%zu ", l.bidi().size());
            else { mc::InLib in; bool r = NodesetLoader_importFile(l.l, nullptr); if(r) { mc::fail("null-context", "importFile without context returned true"); return; } }
        }
        mc::state(log);
        mc::validated();
    });
}
static void histories3() { histories(mc::by_tier(4, 5)); }
// every truncation of a rich file, then the rest of the life cycle
static void truncations() {
    build();
    std::string x = xml(rich(1));
    int n = mc::choose((int)x.size() + 1, "length");
    int after = mc::choose(mc::by_tier(2, 4), "after");
    std::string cut = x.substr(0, n);
    mc::input(mc::fmt("%d bytes", n));
    core::checkLeak([&] {
        core::Loader l;
        l.withExt = after & 1;
        l.importXml(cut, nullptr, 0);
        if(after & 2) l.importXml(FILES[0], nullptr, 1);
        bool r = l.sort();
        size_t k = 0;
        for(int c = 0; c < NCLS; c++) { mc::InLib in; NodesetLoader_forEachNode(l.l, (NL_NodeClass)c, &k, nodeCount); }
        mc::state(mc::fmt("%d %zu %zu", r, k, l.bidi().size()));
        mc::validated();
    });
}
// two loaders alive; own reference service and built-in logger; deletion orders
static bool H(void *c, const NL_Reference *r) { return r->refType.namespaceIndex == 0 && (r->refType.identifier.numeric == 35 || r->refType.identifier.numeric == 45); }
static bool NH(void *c, const NL_Reference *r) { return r->refType.namespaceIndex == 0; }
static bool TD(void *c, const NL_Reference *r) { return false; }
static void AD(void *c, const NL_ReferenceTypeNode *n) {}
static unsigned short nsOf(void *c, const char *u) { return 7; }
static void setups() {
    build();
    int svc = mc::choose(2, "service"), log = mc::choose(2, "logger");
    int o1 = mc::choose(NFILES + 1, "first"), o2 = mc::choose(NFILES + 1, "second"), o3 = mc::choose(NFILES + 1, "third");
    core::checkLeak([&] {
        NL_ReferenceService s = {nullptr, H, NH, TD, AD};
        core::Loader l(false);
        { mc::InLib in; l.l = NodesetLoader_new(log ? nullptr : &l.logger, svc ? &s : nullptr); }
        for(int o : {o1, o2, o3}) {
            if(o == NFILES) { l.sort(); continue; }
            std::string p = core::file(FILES[o], 0);
            NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.file = p.c_str(); fc.addNamespace = nsOf;
            mc::InLib in;
            NodesetLoader_importFile(l.l, &fc);
        }
        size_t k = 0;
        for(int c = 0; c < NCLS; c++) { mc::InLib in; NodesetLoader_forEachNode(l.l, (NL_NodeClass)c, &k, nodeCount); }
        mc::state(mc::fmt("%zu", k));
        mc::validated();
    });
}
int main(int argc, char **argv) {
    mc::scenario("histories", histories3);
    mc::scenario("truncations", truncations);
    mc::scenario("setups", setups);
    return mc::run(argc, argv, {"C10", "call sequences up to length 4 (thorough 5) over 15 operations and every truncation of one rich file"});
}
