// C20: any well-formed XML document is handled without crash, hang or leak
#include <cstring>
#include "core.hpp"
using namespace model;

// element names with three sets of attributes and texts: none, usual, odd
struct Word { const char *name, *attrs[3], *text[3]; };
#define NODE(n) {n, {"", " NodeId=\"ns=1;i=1\" BrowseName=\"1:B\" ParentNodeId=\"ns=1;i=2\" DataType=\"A\"", " NodeId=\"i=\" BrowseName=\":\" ParentNodeId=\"ns=1\" DataType=\"\" ValueRank=\"\" IsAbstract=\"\""}, {"", "x", " "}}
static const std::vector<Word> V = {
    NODE("UAObject"), NODE("UAVariable"), NODE("UADataType"), NODE("UAReferenceType"), NODE("UAMethod"), NODE("UAObjectType"), NODE("UAVariableType"), NODE("UAView"),
    {"References", {"", "", " x=\"1\""}, {"", "", "t"}},
    {"Reference", {"", " ReferenceType=\"i=47\" IsForward=\"false\"", " ReferenceType=\"\" IsForward=\"\""}, {"", "ns=1;i=1", "ns=;"}},
    {"DisplayName", {"", " Locale=\"en\"", " Locale=\"\""}, {"", "d", " "}},
    {"Description", {"", " Locale=\"en\"", " Locale=\"\""}, {"", "d", " "}},
    {"InverseName", {"", " Locale=\"en\"", " Locale=\"\""}, {"", "d", " "}},
    {"Value", {"", "", " x=\"\""}, {"", "v", " "}},
    {"Definition", {"", " Name=\"N\" IsUnion=\"true\"", " IsOptionSet=\"true\" IsUnion=\"x\""}, {"", "", "t"}},
    {"Field", {"", " Name=\"f\" DataType=\"i=1\"", " Value=\"\" ValueRank=\"\" IsOptional=\"\""}, {"", "", "t"}},
    {"Extensions", {"", "", " a=\"\""}, {"", "", "t"}}, {"Extension", {"", "", " a=\"\""}, {"", "", "t"}},
    {"NamespaceUris", {"", "", ""}, {"", "", "t"}}, {"Uri", {"", "", ""}, {"", "u:a", " "}},
    {"Aliases", {"", "", ""}, {"", "", "t"}}, {"Alias", {"", " Alias=\"A\"", " Alias=\"\""}, {"", "i=47", "ns=7;"}},
    {"UANodeSet", {"", "", ""}, {"", "", "t"}}, {"Unknown", {"", " NodeId=\"i=1\"", ""}, {"", "t", " "}},
    // inside of values
    {"Int32", {"", "", ""}, {"", "5", " "}}, {"ListOfInt32", {"", "", ""}, {"", "", "t"}}, {"ExtensionObject", {"", "", ""}, {"", "", "t"}}, {"TypeId", {"", "", ""}, {"", "", "t"}}, {"Identifier", {"", "", ""}, {"", "i=5", ""}}, {"Body", {"", "", ""}, {"", "", "t"}}};
static const int CORE = 24, NV = 30;
static int mode;
static std::string leaf(const Word &w) { return std::string("<") + w.name + w.attrs[mode] + ">" + w.text[mode] + "</" + w.name + ">"; }
static std::string forest(int n, const std::vector<int> &words);
static std::string tree(int n, const std::vector<int> &words) {
    const Word &w = V[mc::pick(words, "element")];
    if(n == 1) return leaf(w);
    return std::string("<") + w.name + w.attrs[mode] + ">" + forest(n - 1, words) + w.text[mode] + "</" + w.name + ">";
}
static std::string forest(int n, const std::vector<int> &words) {
    std::string r;
    while(n > 0) { int k = 1 + mc::choose(n, "elements of subtree"); r += tree(k, words); n -= k; }
    return r;
}
static void run(const std::string &s, const std::string &what, int expect = -1) {
    mc::input(what);
    if(mc::want_sample()) mc::sample(s.substr(0, 3000));
    core::checkLeak([&] {
        core::Loader l;
        l.withExt = true;
        bool r = l.importXml(s);
        if(expect >= 0 && r != (bool)expect) mc::fail("result", mc::fmt("importFile returned %d: ", r) + s.substr(0, 2000));
        std::string st = mc::fmt("%d", r);
        int before = l.errors();
        bool q = l.sort();
        if(!q && l.errors() == before) mc::fail("not-reported", "sort returned false without an error message");
        st += mc::fmt(" %d ", q) + core::dumpAll(l);
        // everything works a second time
        if(l.sort() != q) mc::fail("second-sort", "the second sort has another result");
        st += core::dumpAll(l);
        mc::state(st); mc::validated();
        l.del();
    });
}
static std::string root(const std::string &s) { return "<UANodeSet>" + s + "</UANodeSet>"; }
static std::vector<int> all(int n = CORE) { std::vector<int> r; for(int i = 0; i < n; i++) r.push_back(i); return r; }
static int word(const char *n) { for(int i = 0; i < NV; i++) if(!strcmp(V[i].name, n)) return i; abort(); }
// all trees in each of the parser's contexts
static const std::vector<std::vector<const char *>> CONTEXT = {{}, {"UAObject"}, {"UAVariable"}, {"UADataType"}, {"UAReferenceType"}, {"UAMethod"}, {"UAView"}, {"UAObject", "References"}, {"UAVariable", "References", "Reference"}, {"UAObject", "DisplayName"}, {"UAReferenceType", "InverseName"},
    {"UADataType", "Definition"}, {"UADataType", "Definition", "Field"}, {"UAVariable", "Value"}, {"UAObject", "Value"}, {"UAObject", "Extensions"}, {"UAObject", "Extensions", "Extension"}, {"NamespaceUris"}, {"NamespaceUris", "Uri"}, {"Aliases"}, {"Aliases", "Alias"}, {"Unknown"},
    {"UAVariable", "Value", "ListOfInt32"}, {"UAVariable", "Value", "ExtensionObject"}, {"UAVariable", "Value", "ExtensionObject", "Body"}, {"Extensions"}, {"UADataType", "Unknown"}};
static std::string wrap(const std::vector<const char *> &c, const std::string &s, const std::string &after = "") {
    std::string r = s;
    for(int i = (int)c.size() - 1; i >= 0; i--) { const Word &w = V[word(c[i])]; r = std::string("<") + w.name + w.attrs[mode] + ">" + r + "</" + w.name + ">"; }
    return root("<Aliases><Alias Alias=\"A\">i=12</Alias></Aliases>" + r + after);
}
static void contexts() {
    int n = mc::by_tier(2, 3);
    mode = mc::choose(3, "attributes");
    auto &c = mc::pick(CONTEXT, "context");
    if(n == 3 && mode == 0) n = 2;
    n = 1 + mc::choose(n, "elements");
    bool follow = n < 2 && mc::flag("followed by a node");
    std::string f = forest(n, all(n == 3 ? CORE : NV));
    std::string s = wrap(c, f, follow ? "<UAObject NodeId=\"i=7\" BrowseName=\"f\"><References><Reference ReferenceType=\"i=35\" IsForward=\"false\">ns=1;i=1</Reference></References></UAObject>" : "");
    run(s, s.substr(0, 300), 1);
}
// sequences of siblings in a node
static void siblings() {
    mode = 1 + mc::choose(2, "attributes");
    static const std::vector<std::vector<const char *>> C = {{"UAVariable"}, {"UADataType"}, {"UAReferenceType"}, {"UAObject", "References"}, {}};
    auto &c = mc::pick(C, "context");
    int n = mc::by_tier(3, 4);
    std::vector<int> W;
    for(const char *x : {"References", "DisplayName", "Value", "Definition", "Extensions", "InverseName", "Reference", "UAObject", "Alias", "NamespaceUris", "UAReferenceType"}) W.push_back(word(x));
    std::string f;
    for(int i = 0; i < n; i++) {
        const Word &w = V[mc::pick(W, "element")];
        std::string in;
        if(!strcmp(w.name, "References")) in = "<Reference ReferenceType=\"ns=1;i=1\">ns=1;i=1</Reference>";
        if(!strcmp(w.name, "Definition")) in = "<Field Name=\"a\"/>";
        if(!strcmp(w.name, "Value")) in = "<Int32>1</Int32>";
        if(!strcmp(w.name, "Extensions")) in = "<Extension><a/></Extension>";
        if(!strcmp(w.name, "NamespaceUris")) in = "<Uri>u</Uri>";
        f += std::string("<") + w.name + w.attrs[mode] + ">" + in + w.text[mode] + "</" + w.name + ">";
    }
    run(wrap(c, f), f.substr(0, 300), 1);
}
// values: all trees over the names that have a meaning there
static void values() {
    mode = 1;
    std::vector<int> W = {word("Int32"), word("ListOfInt32"), word("ExtensionObject"), word("TypeId"), word("Identifier"), word("Body"), word("Value")};
    int n = 1 + mc::choose(mc::by_tier(4, 5), "elements");
    static const std::vector<std::vector<const char *>> C = {{"UAVariable", "Value"}, {"UAVariable", "Value", "ExtensionObject"}, {"UAVariable", "Value", "ListOfInt32", "ExtensionObject"}};
    auto &c = C[n > 3 ? mc::tier() ? mc::choose(2, "context") : 0 : mc::choose(3, "context")];
    std::string f = forest(n, W);
    run(wrap(c, f), f, 1);
}
// every attribute and text with every odd value
static const std::vector<std::string> ODD = {"", " ", "=", ";", ":", "i", "i=", "i=x", "i=-1", "i=4294967295", "i=4294967296", "i=99999999999999999999", "s=", "s", "ns=", "ns=1", "ns=1;", "ns=;i=1", "ns=x;i=1", "ns=-1;i=1", "ns=65535;i=1", "ns=65536;i=1", "ns=99999999999;i=1", "ns=1;ns=1;i=1",
    "g=", "g=00000001-0002-0003-0405-060708090a0b", "g=00000001-0002-0003-0405-060708090a0", "g=zzzzzzzz-0002-0003-0405-060708090a0b", "g=00000001000200030405060708090a0b", "g=00000001-0002-0003-0405-060708090a0b0", "b=", "b=A", "b=AA", "b=AAA", "b=AAAA", "b=AAA=", "b=A===", "b====", "b=****", "b=AAAAA", "x=1", "I=1", "ns=1;s=a;b=c", "1:", "1:x", ":x",
    "65535:x", "65536:x", "99999999999:x", "-1:x", "1:2:x", "x:", "0:", "true", "false", "TRUE", "1", "-1", "2147483648", "1,2,3", ",", "1e9", "\xc3\xa4", "&amp;", "&#10;", "Default Binary", "svr=1;i=3", "nsu=u;i=3", "%s%n%d"};
static void attributes() {
    static const std::vector<std::string> AT = {"NodeId", "BrowseName", "ParentNodeId", "DataType", "ValueRank", "ArrayDimensions", "AccessLevel", "UserAccessLevel", "Historizing", "MinimumSamplingInterval", "EventNotifier", "IsAbstract", "Symmetric", "Executable", "UserExecutable", "ContainsNoLoops",
        "Locale", "ReferenceType", "IsForward", "Target", "Alias", "AliasText", "Name", "Value", "FieldDataType", "FieldValueRank", "IsOptional", "IsUnion", "IsOptionSet", "Uri"};
    const std::string &a = mc::pick(AT, "attribute");
    std::string v = mc::pick(ODD, "value");
    if(mc::flag("long")) v += std::string(3000, 'x');
    int cls = mc::choose(NCLS, "class");
    auto is = [&](const char *n, const char *def = "") { return a == n ? v : std::string(def); };
    auto opt = [&](const char *n, const char *as = nullptr) { return a == n ? std::string(" ") + (as ? as : n) + "=\"" + v + "\"" : std::string(); };
    std::string s = "<UANodeSet><NamespaceUris><Uri>" + is("Uri", "u:a") + "</Uri></NamespaceUris><Aliases><Alias Alias=\"" + is("Alias", "A") + "\">" + is("AliasText", "i=47") + "</Alias></Aliases><";
    std::string el = CLS_ELEM[cls];
    s += el + " NodeId=\"" + is("NodeId", "ns=1;i=1") + "\" BrowseName=\"" + is("BrowseName", "1:B") + "\"";
    for(int i = 2; i < 16; i++) s += opt(AT[i].c_str());
    s += "><DisplayName" + opt("Locale") + ">d</DisplayName><References><Reference ReferenceType=\"" + is("ReferenceType", "A") + "\"" + opt("IsForward") + ">" + is("Target", "i=85") + "</Reference></References><Definition" + opt("IsUnion") + opt("IsOptionSet") + "><Field Name=\"" + is("Name", "f") + "\"" + opt("Value") + opt("FieldDataType", "DataType") + opt("FieldValueRank", "ValueRank") + opt("IsOptional") + "/></Definition></" + el + "></UANodeSet>";
    run(s, a + "=" + v.substr(0, 100), 1);
}
// all pairs of ids of two nodes that refer to each other, with odd values
static void oddIds() {
    static const std::vector<std::string> ID = {"", "i=", "i=0", "ns=1;i=1", "ns=1", "s=", "ns=1;s=", "g=", "b=", "b=AAA=", "x", "ns=9;i=1", "ns=1;i=1 ", " ns=1;i=1"};
    std::string a = mc::pick(ID, "id 1"), b = mc::pick(ID, "id 2"), t = mc::pick(ID, "target"), p = mc::pick(ID, "parent");
    static const std::vector<std::string> RT = {"i=47", "", "i=40", "ns=1;i=1", "i=45", "x"};
    std::string ty = mc::pick(RT, "type");
    const char *cl = mc::flag("reference types") ? "UAReferenceType" : "UAObject";
    std::string s = root(mc::fmt("<%s NodeId=\"%s\" ParentNodeId=\"%s\"><References><Reference ReferenceType=\"%s\" IsForward=\"false\">%s</Reference></References></%s><%s NodeId=\"%s\" BrowseName=\"b\" ParentNodeId=\"%s\"/>", cl, a.c_str(), p.c_str(), ty.c_str(), t.c_str(), cl, cl, b.c_str(), a.c_str()));
    run(s, s.substr(0, 300), 1);
}
// deep and wide documents of every element
static void sizes() {
    mode = mc::choose(2, "attributes");
    const Word &w = V[mc::choose(NV, "element")];
    auto &c = mc::pick(CONTEXT, "context");
    int shape = mc::choose(3, "shape");
    static const std::vector<int> DEEP = {10, 100, 240, 252, 260, 400}, WIDE = {11, 101, 1001, 3000};
    mc::slow(60);
    std::string s, o = std::string("<") + w.name + w.attrs[mode] + ">", e = std::string("</") + w.name + ">";
    int n;
    if(shape == 0) { n = mc::pick(DEEP, "size"); for(int i = 0; i < n; i++) s += o; for(int i = 0; i < n; i++) s += e; }
    else { if(mc::tier() == 0 && !(mode == 1 && c.size() > 0)) n = 101; else n = mc::pick(WIDE, "size"); for(int i = 0; i < n; i++) s += shape == 1 ? leaf(w) : o + "x" + e + " "; }
    run(wrap(c, s), mc::fmt("%d %s in %zu", n, w.name, c.size()));
}
// encodings, document types and entities
static void spellings() {
    std::string body = root("<UAObject NodeId=\"i=1\" BrowseName=\"x\"><DisplayName>a</DisplayName></UAObject>");
    int k = mc::choose(14, "document");
    auto u16 = [&](bool be, bool bom) { std::string x = "<?xml version=\"1.0\" encoding=\"UTF-16\"?>" + body, r; if(bom) r = be ? "\xfe\xff" : "\xff\xfe"; for(char ch : x) { if(be) r += '\0'; r += ch; if(!be) r += '\0'; } return r; };
    std::string s;
    switch(k) {
    case 0: s = u16(false, true); break;
    case 1: s = u16(true, true); break;
    case 2: s = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>" + root("<UAObject NodeId=\"i=1\" BrowseName=\"\xe4\"><DisplayName>\xfc</DisplayName></UAObject>"); break;
    case 3: s = "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" + body; break;
    case 4: s = "\xef\xbb\xbf" + body; break;
    case 5: s = "<!DOCTYPE UANodeSet [<!ENTITY e \"text\"><!ENTITY f \"&e;&e;\">]>" + root("<UAObject NodeId=\"i=1\" BrowseName=\"&f;\"><DisplayName>x&f;y</DisplayName></UAObject>"); break;
    case 6: s = "<!DOCTYPE UANodeSet [<!ENTITY e \"<UAObject NodeId='i=4' BrowseName='q'/>\">]>" + root("&e;&e;"); break;
    case 7: s = "<!DOCTYPE UANodeSet [<!ENTITY e SYSTEM \"" + core::file("<UAObject NodeId='i=4'/>", 9) + "\">]>" + root("<UAObject NodeId=\"i=1\"><DisplayName>&e;</DisplayName></UAObject>"); break;
    case 8: s = "<!DOCTYPE UANodeSet SYSTEM \"/nonexistent.dtd\">" + body; break;
    case 9: { std::string d; for(int i = 1; i < 12; i++) d += mc::fmt("<!ENTITY e%d \"&e%d;&e%d;&e%d;&e%d;&e%d;&e%d;&e%d;&e%d;\">", i, i - 1, i - 1, i - 1, i - 1, i - 1, i - 1, i - 1, i - 1); s = "<!DOCTYPE UANodeSet [<!ENTITY e0 \"xxxxxxxxxx\">" + d + "]>" + root("<UAObject NodeId=\"i=1\"><DisplayName>&e11;</DisplayName></UAObject>"); break; }
    case 10: s = "<!DOCTYPE UANodeSet [<!ATTLIST UAObject NodeId CDATA \"ns=1;i=9\" BrowseName CDATA #FIXED \"d\"><!ELEMENT UAObject EMPTY>]>" + root("<UAObject/>"); break;
    case 11: s = "<!DOCTYPE UANodeSet [<!ENTITY e \"&e;\">]>" + root("<UAObject NodeId=\"i=1\"><DisplayName>&e;</DisplayName></UAObject>"); break;
    case 12: s = "<?xml version=\"1.1\"?>" + body; break;
    case 13: s = "<a/>"; break;
    }
    run(s, mc::fmt("spelling %d", k));
}
int main(int argc, char **argv) {
    mc::scenario("contexts", contexts);
    mc::scenario("siblings", siblings);
    mc::scenario("values", values);
    mc::scenario("attributes", attributes);
    mc::scenario("odd-ids", oddIds);
    mc::scenario("sizes", sizes);
    mc::scenario("spellings", spellings);
    return mc::run(argc, argv, {"C20", "all element forests of 2 (thorough: 3) elements of the whole vocabulary in 27 parser contexts, value trees up to 4 (5) elements, 65 odd values for 30 attributes and texts in all node classes, all odd identifier pairs, depth and width sizes, encodings and entity declarations"});
}
