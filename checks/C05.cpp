// C05: namespace indexes are translated everywhere through the callback
#include "core.hpp"
using namespace model;

// imports docs with given answers of the callback; checks the calls of the callback
static void run(const std::vector<Doc> &docs, std::vector<core::NsTable> tables) {
    core::checkLeak([&] {
        core::Loader l; Oracle o;
        std::vector<core::NsTable> t = tables;
        for(size_t i = 0; i < docs.size(); i++) {
            std::string x = xml(docs[i]);
            if(mc::want_sample()) mc::sample(x);
            if(!l.importXml(x, &t[i], (int)i)) { mc::fail("import-fails", "importFile returned false for a well-formed file"); return; }
            if(t[i].calls != docs[i].uris) {
                std::string m = "addNamespace was called with:"; for(auto &u : t[i].calls) m += " [" + u + "]";
                m += " expected:"; for(auto &u : docs[i].uris) m += " [" + u + "]";
                mc::fail("callback-calls", m); return;
            }
            for(size_t k = 0; k < docs.size(); k++) if(k > i && !t[k].calls.empty()) { mc::fail("callback-context", "the callback got the userContext of another import"); return; }
            core::NsTable copy = tables[i];
            o.import(docs[i], [&](const std::string &u) { return copy.get(u); });
        }
        o.sort();
        bool r = l.sort();
        core::compare(l, o, r);
        for(size_t i = 0; i < docs.size(); i++) if(t[i].calls != docs[i].uris) mc::fail("callback-calls-late", "addNamespace was called again after the import");
    });
}
static const std::vector<std::string> KIND = {"i=%d", "s=n%d", "g=09087e75-8e5e-499b-954f-f2a9603db2%02d", "b=YW%dj"};
static std::string id(int kind, int ns, int n) {
    std::string s = ns ? mc::fmt("ns=%d;", ns) : std::string();
    switch(kind) { case 0: return s + mc::fmt("i=%d", 5000 + n); case 1: return s + mc::fmt("s=n%d", n); case 2: return s + mc::fmt("g=09087e75-8e5e-499b-954f-f2a9603db2%02d", n); default: return s + mc::fmt("b=YW%dj", n); }
}
static core::NsTable table(const std::vector<std::string> &uris, const std::vector<int> &answers) {
    core::NsTable t;
    for(size_t i = 0; i < uris.size(); i++) t.idx[uris[i]] = answers[i];
    t.next = 20;
    return t;
}
static std::vector<std::string> URIS = {"http://a/", "http://b/", "urn:c"};
// one namespace index in one position, all answers of the callback
static void positions() {
    static const std::vector<std::vector<int>> ANS = {{1, 2, 3}, {3, 1, 2}, {7, 5, 6}, {2, 2, 2}, {0, 1, 2}, {65535, 256, 300}, {1, 0, 4}};
    int k = mc::choose(4, "uris");
    std::vector<std::string> u(URIS.begin(), URIS.begin() + k);
    core::NsTable t = table(u, k ? mc::pick(ANS, "answers") : ANS[0]);
    int ns = mc::choose(k + 3, "index"), kind = mc::choose(4, "kind");
    if(mc::tier() == 0 && ns > k + 1) ns = 255;
    if(mc::tier() && ns > k + 1) ns = 65535;
    std::string x = id(kind, ns, 1);
    Doc d; d.uris = u; d.hasUris = mc::tier() ? mc::flag("empty list") : true;
    Node n = node(OBJECT, "i=90001", "N");
    switch(mc::choose(16, "position")) {
    case 0: n.id = x; break;
    case 1: n.attrs.push_back({"ParentNodeId", x}); break;
    case 2: n.bn = mc::fmt("%d:Name", ns); break;
    case 3: n.refs.push_back(ref(x, "i=85", false)); break;             // reference type: undefined -> sort fails in both, or namespace 0
    case 4: n.refs.push_back(ref("i=35", x, false)); break;
    case 5: n.refs.push_back(ref("i=41", x)); break;
    case 6: d.aliases.push_back({"Al", x}); n.refs.push_back(ref("i=35", "Al", false)); break;
    case 7: n.cls = VARIABLE; n.attrs.push_back({"DataType", x}); break;
    case 8: n.cls = VARIABLETYPE; n.attrs.push_back({"DataType", x}); break;
    case 9: n.cls = DATATYPE; n.def.present = true; n.def.fields.push_back({{{"Name", "F"}, {"DataType", x}}}); break;
    case 10: n.cls = METHOD; n.attrs.push_back({"ParentNodeId", x}); break;
    case 11: n.cls = VIEW; n.attrs.push_back({"ParentNodeId", x}); break;
    case 12: n.cls = VARIABLE; n.attrs.push_back({"ParentNodeId", x}); break;
    case 13: n.refs.push_back(ref("i=40", x)); break;
    case 14: d.aliases.push_back({"Al", x}); n.cls = VARIABLE; n.attrs.push_back({"DataType", "Al"}); break;
    case 15: {                                                           // reference type, defined in the file
        Node rt = node(REFERENCETYPE, x, "RT"); rt.refs.push_back(ref("i=45", "i=47", false));
        n.refs.push_back(ref(x, "i=85", false));
        if(mc::flag("alias")) { d.aliases.push_back({"Al", x}); n.refs[0].type = "Al"; }
        d.nodes.push_back(rt);
        break;
    }
    }
    d.nodes.push_back(n);
    run({d}, {t});
}
// the encoding reference, and nodes of all classes with all their identifiers
static void everything() {
    std::vector<std::string> u(URIS.begin(), URIS.begin() + 2);
    static const std::vector<int> ANS = {1, 2, 3, 7};                    // different ones: ids must stay distinct
    int a = mc::pick(ANS, "answer"), b = mc::pick(ANS, "answer");
    if(a == b) return;
    int k1 = mc::choose(4, "kind"), k2 = mc::choose(2, "kind");
    int s = mc::choose(mc::by_tier(2, 3), "swap");
    int n1 = s == 1 ? 2 : 1, n2 = s == 1 ? 1 : 2;
    if(s == 2) n1 = n2 = 2;
    Doc d; d.uris = u;
    d.aliases = {{"T", id(k1, n1, 50)}, {"R", id(k2, n2, 51)}};
    Node rt = node(REFERENCETYPE, id(k2, n2, 51), mc::fmt("%d:RT", n2)); rt.refs.push_back(ref("i=45", "i=47", false));
    Node o = node(OBJECT, id(k1, n1, 1), mc::fmt("%d:O", n1)); o.refs = {ref("R", id(k2, n2, 2), false), ref("i=40", "T")};
    Node v = node(VARIABLE, id(k2, n2, 2), mc::fmt("%d:V", n2)); v.attrs = {{"DataType", "T"}, {"ParentNodeId", id(k1, n1, 9)}};
    Node e = node(OBJECT, id(k1, n2, 3), "Default Binary"); e.refs = {ref("i=38", id(k2, n1, 4), false)};
    Node t = node(DATATYPE, id(k2, n1, 4), mc::fmt("%d:T", n1)); t.def.present = true; t.def.fields = {{{{"Name", "a"}, {"DataType", "T"}}}, {{{"Name", "b"}, {"DataType", id(k2, n2, 7)}}}};
    d.nodes = {o, v, e, t, rt};
    run({d}, {table(u, {a, b})});
}
// many Uris, Uris of any text, the same Uri again
static void lists() {
    static const std::vector<std::string> TXT = {"http://a/", "", "urn:\xc3\xa4&<>\"'", "a b", "http://opcfoundation.org/UA/", "x"};
    Doc d; d.hasUris = true;
    int big = mc::choose(3, "size");
    core::NsTable t; t.next = 100;
    if(big == 2) { mc::slow(60); static const std::vector<int> N = {10, 63, 64, 65, 127, 255, 256, 257, 1000}; int n = mc::pick(N, "count"); for(int i = 0; i < n; i++) d.uris.push_back(mc::fmt("http://n%d/", i)); }
    else { int n = mc::choose(mc::by_tier(4, 5), "count"); for(int i = 0; i < n; i++) d.uris.push_back(mc::pick(TXT, "uri")); }
    if(big == 1) d.uris.insert(d.uris.begin(), std::string(mc::pick(std::vector<int>{300, 1023, 1024, 1025, 5000}, "length"), 'u'));
    std::set<int> ks = {0, 1, 2, (int)d.uris.size() - 1, (int)d.uris.size(), (int)d.uris.size() + 1};
    for(int k : ks) if(k >= 0) { Node n = node(OBJECT, id(0, k, k), mc::fmt("%d:N", k)); n.refs.push_back(ref("i=35", id(1, k, 7), false)); d.nodes.push_back(n); }
    run({d}, {t});
}
// two imports: every file has its own list, callback answers and context
static void files() {
    Doc a, b;
    static const std::vector<std::vector<int>> ANS = {{1, 2}, {2, 1}, {5, 3}};
    std::vector<core::NsTable> t;
    for(Doc *d : {&a, &b}) {
        int n = mc::choose(3, "uris");
        for(int i = 0; i < n; i++) d->uris.push_back(mc::pick(URIS, "uri"));
        core::NsTable tb; tb.next = 30;
        std::vector<int> ans = mc::pick(ANS, "answers");
        for(int i = 0; i < 2; i++) tb.idx[URIS[i]] = ans[i] + (d == &b && mc::tier() ? 10 : 0);
        t.push_back(tb);
    }
    for(int f = 0; f < 2; f++) {
        Doc &d = f ? b : a;
        for(int k = 0; k < 4; k++) {
            Node n = node(k == 3 ? VARIABLE : OBJECT, id(k % 2, k, 10 * f + k), mc::fmt("%d:N", k));
            n.refs.push_back(ref("i=47", id(0, k, 60), false));
            d.nodes.push_back(n);
        }
    }
    run({a, b}, t);
}
int main(int argc, char **argv) {
    mc::scenario("positions", positions);
    mc::scenario("everything", everything);
    mc::scenario("lists", lists);
    mc::scenario("files", files);
    return mc::run(argc, argv, {"C05", "up to 1000 Uris; callback answers from a small set per Uri"});
}
