// C13: import reports failure for every damaged, truncated or unreadable file
// LINK: -Wl,--wrap=fopen
#include <cerrno>
#include <cstdio>
#include <libxml/parser.h>
#include <unistd.h>
#include <sys/stat.h>
#include "core.hpp"
#include "real.hpp"
using namespace model;

// the file the library opens can be a stream with planned faults
extern "C" FILE *__real_fopen(const char *, const char *);
struct Plan { bool armed = false; std::string data; size_t failAt = 0; bool fail = false; size_t chunk = 0; size_t pos = 0; int open = 0, opened = 0; int err = EIO; };
static Plan plan;
static ssize_t rd(void *, char *buf, size_t n) {
    mc::OutLib o;
    if(plan.fail && plan.pos >= plan.failAt) { errno = plan.err; return -1; }
    size_t left = (plan.fail ? plan.failAt : plan.data.size()) - plan.pos;
    if(n > left) n = left;
    if(plan.chunk && n > plan.chunk) n = plan.chunk;
    memcpy(buf, plan.data.data() + plan.pos, n);
    plan.pos += n;
    return (ssize_t)n;
}
static int cl(void *) { plan.open--; return 0; }
extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
    if(!plan.armed) return __real_fopen(p, m);
    mc::OutLib o;
    plan.armed = false;
    plan.pos = 0; plan.open++; plan.opened++;
    cookie_io_functions_t io = {rd, nullptr, nullptr, cl};
    FILE *f = fopencookie(&plan, "r", io);
    if(plan.chunk) setvbuf(f, nullptr, _IONBF, 0);
    return f;
}
static void quiet(void *, const char *, ...) {}
static int wellFormed(const std::string &s) {     // 1 yes, 0 no, -1 only in respect of namespaces
    mc::OutLib o;
    if(s.empty() || s.find((char)0) != std::string::npos) return 0;
    xmlSetGenericErrorFunc(nullptr, quiet);
    xmlParserCtxtPtr c = xmlNewParserCtxt();
    xmlDocPtr d = xmlCtxtReadMemory(c, s.data(), (int)s.size(), nullptr, nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
    int r = d && c->wellFormed ? (c->nsWellFormed ? 1 : -1) : 0;
    if(r == 1 && c->errNo != 0) r = -1;
    if(d) xmlFreeDoc(d);
    xmlFreeParserCtxt(c);
    xmlSetGenericErrorFunc(nullptr, nullptr);
    return r;
}
static Doc rich() {
    Doc d; d.uris = {"http://a/", "http://b/"}; d.aliases = {{"HasComponent", "i=47"}, {"Str", "ns=1;s=alias"}};
    Node o = node(OBJECT, "ns=1;s=obj ect", "1:O"); o.dn = txt("Display", "de"); o.desc = txt("De & sc"); o.refs = {ref("i=35", "i=85", false), ref("i=40", "Str"), ref("HasComponent", "ns=1;i=3")};
    Node v = node(VARIABLE, "ns=1;i=3", "1:V"); v.attrs = {{"DataType", "Str"}, {"ParentNodeId", "ns=1;s=obj ect"}}; v.hasValue = true;
    v.value = {elem("ListOfExtensionObject", std::vector<Elem>{elem("ExtensionObject", std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "i=5")}), elem("Body", std::vector<Elem>{elem("S", std::vector<Elem>{elem("A", "1"), elem("B", std::vector<Elem>{elem("C", "\xc3\xa4")})})})})})};
    v.hasExt = true; v.exts = {{elem("E", "text")}, {elem("F", std::vector<Elem>{elem("G")})}};
    Node t = node(DATATYPE, "ns=1;i=5", "1:DT"); t.def.present = true; t.def.fields = {{{{"Name", "a"}, {"DataType", "Str"}}}, {{{"Name", "b"}, {"DataType", "ns=1;s=x"}}}}; t.refs = {ref("i=45", "i=22", false)};
    Node e = node(OBJECT, "ns=1;i=7", "Default Binary"); e.refs = {ref("i=38", "ns=1;i=5", false)};
    Node m = node(METHOD, "ns=1;i=9", "1:M"); m.attrs = {{"ParentNodeId", "ns=1;s=obj ect"}};
    Node r = node(REFERENCETYPE, "ns=2;i=11", "2:R"); r.inv = txt("inverse"); r.refs = {ref("i=45", "i=33", false)};
    d.nodes = {o, v, t, e, m, r};
    return d;
}
static std::string small() {
    Doc d; d.uris = {"u:a"};
    Node n = node(VARIABLE, "ns=1;i=1", "1:V"); n.dn = txt("n&m"); n.refs = {ref("i=35", "i=85", false)}; n.hasValue = true; n.value = {elem("Int32", "5")};
    d.nodes = {n};
    std::string s = xml(d);
    s.insert(s.find("<UAVariable"), "<!--c--><?p i?>");
    s.insert(s.find("Int32>5") + 6, "<![CDATA[4]]>");
    return s;
}
static Doc good() { Doc d; d.uris = {"http://good/"}; Node n = node(OBJECT, "ns=1;s=good", "1:Good"), c = node(METHOD, "ns=1;s=child", "1:C"); n.refs = {ref("i=35", "i=85", false)}; c.attrs = {{"ParentNodeId", "ns=1;s=good"}}; d.nodes = {c, n}; return d; }
static unsigned short nsOf(void *, const char *u) { return strcmp(u, "http://good/") ? 5 : 9; }
static bool importP(core::Loader &l, const char *path) {
    NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.file = path; fc.addNamespace = nsOf;
    mc::InLib in;
    return NodesetLoader_importFile(l.l, &fc);
}
// the loader stays usable after a failure: a good file is imported and its nodes are delivered
static void stillUsable(core::Loader &l, bool judge) {
    int before = l.errors();
    Doc g = good();
    std::string p = core::file(xml(g), 3);
    if(!importP(l, p.c_str())) { mc::fail("unusable", "a good file cannot be imported after the failure"); return; }
    if(l.errors() != before) { mc::fail("unusable-error", "importing a good file after the failure reports an error"); return; }
    bool r = l.sort();
    if(!judge) { if(r) l.deliver(); return; }
    if(!r) { mc::fail("unusable-sort", "sort fails after a failed and a good import"); return; }
    Oracle o; o.import(g, [](const std::string &) { return 9; }); o.sort();
    for(size_t i = 0; i < o.nodes.size(); i++) {
        bool found = false;
        for(auto &c : l.deliver()) for(auto &d : c.second) if(o.dumps[i].count(d.dump)) found = true;
        if(!found) { mc::fail("unusable-node", "node of the good file is not delivered: " + o.nodes[i].id); return; }
    }
}
static void expectFailure(const std::function<bool(core::Loader &)> &imp, int wf, const std::string &what, bool judge, bool two) {
    mc::input(what);
    core::checkLeak([&] {
        core::Loader l;
        if(two) { std::string p = core::file(small(), 4); importP(l, p.c_str()); }
        int before = l.errors();
        bool r = imp(l);
        mc::state(what + mc::fmt(" %d", r));
        mc::validated();
        if(r && wf == 0) { mc::fail("accepted", what + ": importFile returned true"); return; }
        if(!r && wf == 1) { mc::fail("refused", what + ": importFile returned false for a well-formed file"); return; }
        if(!r && l.errors() == before) { mc::fail("not-reported", what + ": importFile returned false without an error message"); return; }
        stillUsable(l, judge);
    });
}
static std::function<bool(core::Loader &)> bytes(const std::string &s) {
    return [s](core::Loader &l) { std::string p = core::file(s, 0); return importP(l, p.c_str()); };
}
// every prefix, of documents padded so that every byte comes to lie at a chunk boundary
static void truncated() {
    int which = mc::choose(2, "document");
    std::string s = which ? xml(rich()) : small();
    int pad = mc::choose(mc::by_tier(3, 24), "padding");
    if(pad) s.insert(s.find("<UANodeSet"), std::string(pad * (mc::tier() ? 43 : 340), ' '));
    int n = mc::choose((int)s.size() + 1, "length");
    std::string c = s.substr(0, n);
    if(mc::want_sample()) mc::sample(c);
    expectFailure(bytes(c), wellFormed(c), mc::fmt("document %d padding %d cut to %d bytes", which, pad, n), true, mc::tier() && mc::flag("second file"));
}
// every single-byte damage
static void damaged() {
    std::string s = small();
    if(mc::tier() && mc::flag("rich")) s = xml(rich());
    int i = mc::choose((int)s.size(), "position");
    static const std::string A = std::string("<&>\0x\xff \"/", 9);
    int how = mc::choose(2 + (int)A.size() * mc::by_tier(1, 2), "damage");
    std::string c = s;
    if(how == 0) c.erase(i, 1);
    else if(how == 1) c.insert(i, 1, c[i]);
    else if(how < 2 + (int)A.size()) c[i] = A[how - 2];
    else c.insert(i, 1, A[how - 2 - A.size()]);
    if(mc::want_sample()) mc::sample(c);
    expectFailure(bytes(c), wellFormed(c), mc::fmt("damage %d at %d", how, i), false, false);
}
// structural damage at every element
static void structure() {
    std::string s = mc::flag("rich") ? xml(rich()) : small();
    std::vector<size_t> lt;
    for(size_t p = 0; (p = s.find('<', p)) != std::string::npos; p++) lt.push_back(p);
    size_t p = lt[mc::choose((int)lt.size(), "element")];
    std::string c = s;
    switch(mc::choose(7, "damage")) {
    case 0: c.erase(p, c.find('>', p) + 1 - p); break;
    case 1: c.insert(p, "</x>"); break;
    case 2: c.insert(p, "<x>"); break;
    case 3: c.insert(p, "&undefined;"); break;
    case 4: c.insert(p, "<x a='1' a='2'/>"); break;
    case 5: c.insert(p, "\xc3"); break;
    case 6: c.insert(p, "<!-- -- -->"); break;
    }
    expectFailure(bytes(c), wellFormed(c), mc::fmt("structure %zu", p) + c.substr(p, 20), false, false);
}
// more after the end of the document
static void trailing() {
    static const std::vector<std::string> T = {"", "\n", " \t\r\n", "x", "<", "<a/>", "<!--c-->", "<?p?>", "&amp;", "</UANodeSet>", std::string("\0", 1), "\xff", "<UANodeSet/>", "<![CDATA[]]>", "<!--c", "<?p"};
    std::string s = mc::flag("rich") ? xml(rich()) : small();
    int pad = mc::choose(mc::by_tier(8, 1024), "space");
    s += std::string(mc::tier() ? pad : (size_t)pad * 129, ' ') + mc::pick(T, "trailer");
    expectFailure(bytes(s), wellFormed(s), mc::fmt("trailer at %d ", pad) + s.substr(s.size() - 3), true, false);
}
// read errors at every offset, short reads of every size
static void readErrors() {
    std::string s = mc::flag("rich") ? xml(rich()) : small();
    int n = mc::choose((int)s.size() + 1, "error at");
    static const std::vector<int> CH = {0, 1, 7, 1024};
    int chunk = mc::pick(CH, "read size");
    expectFailure([&](core::Loader &l) { plan = Plan(); plan.armed = true; plan.data = s; plan.fail = true; plan.failAt = n; plan.chunk = chunk; bool r = importP(l, "/planned"); if(plan.open) mc::fail("not-closed", "the file is left open"); return r; },
                  0, mc::fmt("read error at %d read size %d", n, chunk), true, false);
}
static void shortReads() {
    std::string s = xml(rich());
    int chunk = mc::choose(mc::by_tier(50, 1100), "read size") + 1;
    s.insert(s.find("<UANodeSet"), std::string(mc::choose(5, "padding") * 17, ' '));
    expectFailure([&](core::Loader &l) { plan = Plan(); plan.armed = true; plan.data = s; plan.chunk = chunk; bool r = importP(l, "/planned"); if(plan.open) mc::fail("not-closed", "the file is left open"); return r; },
                  1, mc::fmt("read size %d", chunk), true, false);
}
// files that cannot be opened or read; refused arguments; and everything closed afterwards
static void unreadable() {
    std::string dir = mc::scratch() + "/dir", plain = core::file("<UANodeSet/>", 0);
    mkdir(dir.c_str(), 0700);
    std::vector<std::string> P = {"/nonexistent/x.xml", dir, plain + "/below", "", std::string(5000, 'p'), mc::scratch() + "/missing.xml", "/dev/null"};
    int k = mc::choose((int)P.size() + 3, "path"), rep = mc::choose(3, "repetitions") + 1;
    bool two = mc::flag("after a good import");
    expectFailure([&](core::Loader &l) {
        bool r = false;
        for(int i = 0; i < rep; i++) {
            if(k < (int)P.size()) r |= importP(l, P[k].c_str());
            else if(k == (int)P.size()) { mc::InLib in; r |= NodesetLoader_importFile(l.l, nullptr); }
            else if(k == (int)P.size() + 1) { NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.file = plain.c_str(); mc::InLib in; r |= NodesetLoader_importFile(l.l, &fc); }
            else { NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.file = "/nonexistent"; mc::InLib in; r |= NodesetLoader_importFile(l.l, &fc); }
        }
        if(l.errors() < rep) mc::fail("not-reported-each", "not every failure is reported");
        return r;
    }, 0, mc::fmt("unreadable %d", k), true, two);
    rmdir(dir.c_str());
}
// no file stays open, however many imports fail
static void descriptors() {
    int kind = mc::choose(4, "kind");
    std::string s = kind == 0 ? small() : kind == 1 ? small().substr(0, 200) : kind == 2 ? "" : "<a><b></a>";
    auto count = [] { int n = 0; for(int i = 0; i < 1024; i++) { struct stat st; if(fstat(i, &st) == 0) n++; } return n; };
    core::Loader l;
    int a = count();
    for(int i = 0; i < 20; i++) bytes(s)(l);
    int b = count();
    mc::validated();
    if(a != b) mc::fail("descriptors", mc::fmt("%d file descriptors open before, %d after 20 imports", a, b));
}
// the repository's own documents cut off after every byte
static void repositoryDocuments() {
    auto &l = real::files(mc::by_tier(6000, 40000));
    int a = mc::choose((int)l.size(), "file");
    std::string x = l[a].xml;
    size_t end = x.rfind('>');
    int at = mc::choose((int)end + 1, "byte");
    mc::input(l[a].name);
    core::checkLeak([&] {
        core::Loader l;
        if(l.importXml(x.substr(0, at))) { mc::fail("truncated-accepted", mc::fmt("importFile returned true for a file cut off after %d bytes", at)); return; }
        if(!l.errors()) { mc::fail("not-reported", "importFile returned false without an error message"); return; }
        mc::validated();
    });
}
int main(int argc, char **argv) {
    mc::scenario("truncated", truncated);
    mc::scenario("damaged", damaged);
    mc::scenario("structure", structure);
    mc::scenario("trailing", trailing);
    mc::scenario("read-errors", readErrors);
    mc::scenario("short-reads", shortReads);
    mc::scenario("unreadable", unreadable);
    mc::scenario("descriptors", descriptors);
    mc::scenario("repository-documents", repositoryDocuments);
    return mc::run(argc, argv, {"C13", "every truncation of two documents (several paddings), single-byte and structural damages of one (thorough: two) documents judged by libxml2's tree parser, read errors at every offset; the documents in the repository cut off after every byte"});
}
