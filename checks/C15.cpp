// C15: the value of a variable is delivered as the tree written in the file
#include <cstring>
#include "core.hpp"
using namespace model;

static const std::vector<std::vector<std::string>> NAMES = {{"A", "B", "Value"}, {"A", "ExtensionObject", "ListOfA"}, {"Body", "TypeId", "A"}, {"Identifier", "Extension", "A"}, {"UAVariable", "Reference", "A"}, {"A", "AA", "a"}};
static const std::vector<std::string> TEXT = {"", "t", " \n\t ", " a&b "};
static std::string ws;
// every ordered tree with n elements below the given names: the shape is chosen by the number of elements of
// the first subtree, recursively
static Elem tree(int n, const std::vector<std::string> &names, int texts);
static std::vector<Elem> forest(int n, const std::vector<std::string> &names, int texts) {
    std::vector<Elem> r;
    while(n > 0) {
        int k = 1 + mc::choose(n, "elements of subtree");
        r.push_back(tree(k, names, texts));
        n -= k;
    }
    return r;
}
static Elem tree(int n, const std::vector<std::string> &names, int texts) {
    Elem e;
    e.name = mc::pick(names, "name");
    e.ws = ws;
    if(n == 1) { int t = mc::choose(texts, "text"); e.text = TEXT[t]; if(TEXT[t].size()) e.ws = ""; else e.ws = ""; }
    else e.kids = forest(n - 1, names, texts);
    return e;
}
static Elem extObj(const std::vector<Elem> &body, const std::string &type, bool bodyFirst = false, bool withType = true) {
    Elem x = elem("ExtensionObject"), t = elem("TypeId", std::vector<Elem>{elem("Identifier", type)}), b = elem("Body", body);
    x.ws = b.ws = t.ws = ws;
    if(withType && !bodyFirst) x.kids.push_back(t);
    x.kids.push_back(b);
    if(withType && bodyFirst) x.kids.push_back(t);
    return x;
}
static Doc doc(const std::vector<Elem> &value, int cls = VARIABLE) {
    Doc d; d.uris = {"u:a"};
    Node n = node(cls, "ns=1;i=1", "1:V"), m = node(VARIABLE, "ns=1;i=2", "1:W");
    n.hasValue = true; n.value = value;
    n.refs = {ref("i=35", "i=85", false)};
    d.nodes = {n, m};
    return d;
}
static void trees() {
    int n = 1 + mc::choose(mc::by_tier(4, 5), "elements");
    auto &names = mc::pick(NAMES, "names");
    int texts = n >= 4 ? 2 : n == 3 ? 3 : 4;
    ws = mc::flag("indented") ? "\n  " : "";
    std::vector<Elem> v;
    switch(mc::choose(4, "form")) {
    case 0: { Elem e = tree(n, names, texts); e.name = mc::flag("name of the value") ? "Int32" : "Value"; v = {e}; break; }
    case 1: { Elem e = elem("ListOfInt32", forest(n, names, texts)); e.ws = ws; if(e.kids[0].name == "ExtensionObject") return; for(auto &k : e.kids) if(k.name == "ExtensionObject") return; v = {e}; break; }
    case 2: v = {extObj({tree(n, names, texts)}, "ns=1;i=17")}; break;
    case 3: {
        std::vector<Elem> f = forest(n, names, texts), x;
        for(size_t i = 0; i < f.size(); i++) x.push_back(extObj({f[i]}, "i=" + std::to_string(297 + i)));
        Elem e = elem("ListOfExtensionObject", x); e.ws = ws; v = {e};
        break;
    }
    }
    core::full(doc(v));
}
// frames of extension objects: type or body missing or empty, exchanged, type with odd content
static void frames() {
    ws = mc::flag("indented") ? "\n  " : "";
    bool list = mc::flag("list");
    int n = list ? mc::choose(4, "members") : 1;
    static const std::vector<std::string> TY = {"i=1", "ns=1;s=a b", "", "nonsense"};
    std::vector<Elem> xs;
    for(int i = 0; i < n; i++) {
        int f = mc::choose(6, "frame");
        std::string t = TY[mc::choose(n > 2 && !mc::tier() ? 2 : (int)TY.size(), "type")];
        std::vector<Elem> b = {elem("S", std::vector<Elem>{elem("M" + std::to_string(i), "v" + std::to_string(i))})};
        switch(f) {
        case 0: xs.push_back(extObj(b, t)); break;
        case 1: xs.push_back(extObj(b, t, true)); break;
        case 2: xs.push_back(extObj(b, t, false, false)); break;
        case 3: xs.push_back(extObj({}, t)); break;
        case 4: { Elem x = extObj({elem("S")}, t); xs.push_back(x); break; }
        case 5: xs.push_back(extObj({elem("S", std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "i=99")}), elem("Body"), elem("ExtensionObject", std::vector<Elem>{elem("Body", std::vector<Elem>{elem("In", "x")})})})}, t)); break;
        }
    }
    Elem v = list ? elem("ListOfExtensionObject", xs) : xs[0];
    v.ws = ws;
    // without any type the previous one of the list stays: not judged
    bool some = false;
    for(auto &x : xs) { bool has = false; for(auto &k : x.kids) if(k.name == "TypeId" && !k.kids[0].text.empty()) has = true; if(!has && some) return; some |= has; }
    core::full(doc({v}));
}
// lists and structures of every size, deep nesting, long names and texts
static void sizes() {
    int k = mc::choose(7, "kind");
    int n = mc::choose(mc::by_tier(70, 400), "size");
    std::vector<Elem> ms;
    switch(k) {
    case 0: for(int i = 0; i < n; i++) ms.push_back(elem("Int32", std::to_string(i))); core::full(doc({elem("ListOfInt32", ms)})); break;
    case 1: for(int i = 0; i < n; i++) ms.push_back(elem("M" + std::to_string(i), std::to_string(i))); core::full(doc({extObj({elem("S", ms)}, "i=7")})); break;
    case 2: for(int i = 0; i < n; i++) ms.push_back(extObj({elem("S", std::vector<Elem>{elem("X", std::to_string(i))})}, "i=7")); core::full(doc({elem("ListOfExtensionObject", ms)})); break;
    case 3: { Elem e = elem("L", "bottom"); for(int i = 0; i < n * 2 && i < 220; i++) e = elem("L", std::vector<Elem>{e, elem("after", std::to_string(i))}); core::full(doc({extObj({e}, "i=7")})); break; }
    case 4: core::full(doc({elem("String", std::string(n * 37, 'x'))})); break;
    case 5: core::full(doc({elem(std::string(n * 7 + 1, 'N'), std::vector<Elem>{elem(std::string(n * 3 + 1, 'm'), "v")})})); break;
    case 6: { Elem e = elem("Deep", "bottom"); for(int i = 0; i < n && i < 220; i++) e = elem("ListOfD", std::vector<Elem>{e}); core::full(doc({elem("Root", std::vector<Elem>{e, elem("last", "1")})})); break; }
    }
}
static void large() {
    static const std::vector<int> N = {127, 128, 255, 256, 257, 1000, 9999, 10001, 30000};
    int n = mc::pick(N, "size");
    mc::slow(60);
    std::vector<Elem> ms;
    bool ext = mc::flag("extension objects");
    for(int i = 0; i < n; i++) ms.push_back(ext ? extObj({elem("S", std::vector<Elem>{elem("X", std::to_string(i))})}, "i=7") : elem("Int32", std::to_string(i)));
    core::full(doc({elem(ext ? "ListOfExtensionObject" : "ListOfInt32", ms)}));
}
// values stay with their node
static std::vector<Elem> form(int k) {
    ws = "";
    switch(k) {
    case 1: return {elem("Int32", "5")};
    case 2: return {elem("ListOfString", std::vector<Elem>{elem("String", "a"), elem("String")})};
    case 3: return {extObj({elem("S", std::vector<Elem>{elem("X", "1")})}, "i=3")};
    case 4: return {elem("ListOfExtensionObject", std::vector<Elem>{extObj({elem("S", std::vector<Elem>{elem("X", "1")})}, "i=3"), extObj({elem("T")}, "i=3")})};
    case 5: return {elem("ListOfInt32")};
    case 6: return {};
    case 7: return {elem("LocalizedText", std::vector<Elem>{elem("Locale", "en"), elem("Text", "t")})};
    }
    return {};
}
static void neighbours() {
    Doc d; d.uris = {"u:a"};
    int n = mc::by_tier(3, 4);
    static const std::vector<int> CL = {VARIABLE, VARIABLETYPE, OBJECT, DATATYPE};
    for(int i = 0; i < n; i++) {
        Node x = node(mc::pick(CL, "class"), "ns=1;i=" + std::to_string(i + 1), "1:N");
        int k = mc::choose(8, "value");
        x.hasValue = k > 0; x.value = form(k);
        x.refs = {ref("i=35", "i=85", false)};
        d.nodes.push_back(x);
    }
    core::full(d);
}
// the value at any place among the other elements of the node, or several (the last one counts)
static void places() {
    int k = mc::choose(7, "value") + 1, place = mc::choose(4, "place"), second = mc::choose(8, "second value");
    bool refs = mc::flag("references"), texts = mc::flag("texts");
    Node n = node(VARIABLE, "ns=1;i=1", "1:V"); n.hasValue = true; n.value = form(second ? second : k);
    if(texts) { n.dn = txt("display"); n.desc = txt("description"); }
    if(refs) n.refs = {ref("i=35", "i=85", false), ref("i=40", "i=63")};
    Doc d; d.uris = {"u:a"}; Node after = node(VARIABLE, "ns=1;i=2", "1:W"); d.nodes = {n, after};
    Doc e = d; e.nodes[0].value = form(k);
    Doc only; only.nodes = {e.nodes[0]};
    std::string s = xml(d), v2 = s.substr(s.find("<Value"), s.find("</Value>") + 8 - s.find("<Value")), x = xml(e);
    std::string v1 = x.substr(x.find("<Value"), x.find("</Value>") + 8 - x.find("<Value"));
    s.erase(s.find(v2), v2.size());
    std::vector<size_t> at = {s.find("<UAVariable")};
    at[0] = s.find('>', at[0]) + 1;
    for(const char *t : {"</DisplayName>", "</Description>", "</References>"}) { size_t p = s.find(t); at.push_back(p == std::string::npos ? at[0] : p + strlen(t)); }
    if(second) s.insert(s.find("</UAVariable>"), v2);
    s.insert(at[place], v1);
    core::fullRaw({s}, {d});
}
// every character, alone and in pairs, as the text of a value
static void characters() {
    ws = "";
    int f = mc::choose(4, "form");
    std::string t = core::pickChars("text");
    std::vector<Elem> two = {elem("String", t), elem("String", "x")};
    switch(f) {
    case 0: core::full(doc({elem("String", t)})); break;
    case 1: core::full(doc({elem("ListOfString", two)})); break;
    case 2: core::full(doc({extObj({elem("S", two)}, "i=7")})); break;
    case 3: core::full(doc({elem("LocalizedText", std::vector<Elem>{elem("Locale", "x"), elem("Text", t)})})); break;
    }
}
int main(int argc, char **argv) {
    mc::scenario("trees", trees);
    mc::scenario("frames", frames);
    mc::scenario("sizes", sizes);
    mc::scenario("large", large);
    mc::scenario("neighbours", neighbours);
    mc::scenario("places", places);
    mc::scenario("characters", characters);
    return mc::run(argc, argv, {"C15", "all value trees with up to 4 (thorough: 5) elements over 6 name alphabets in the 4 value forms, all extension object frames, sizes up to 30000, all triples of neighbouring values"});
}
