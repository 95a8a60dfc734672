// C14: unknown elements, attributes, comments and processing instructions change nothing
#include <cstring>
#include "core.hpp"
#include "real.hpp"
using namespace model;

// a document that uses every element the loader knows
static Doc rich() {
    Doc d; d.uris = {"http://a/", "http://b/"}; d.aliases = {{"HasComponent", "i=47"}, {"Str", "ns=1;s=alias"}};
    Node o = node(OBJECT, "ns=1;s=obj", "1:O"); o.dn = txt("Display", "de"); o.desc = txt("Desc"); o.attrs = {{"EventNotifier", "1"}};
    o.refs = {ref("i=35", "i=85", false), ref("i=40", "Str"), ref("HasComponent", "ns=1;i=3"), ref("ns=2;i=11", "ns=1;i=9")};
    Node v = node(VARIABLE, "ns=1;i=3", "1:V"); v.attrs = {{"DataType", "Str"}, {"ParentNodeId", "ns=1;s=obj"}}; v.dn = txt("V"); v.hasValue = true;
    v.value = {elem("ListOfExtensionObject", std::vector<Elem>{elem("ExtensionObject", std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "i=5")}), elem("Body", std::vector<Elem>{elem("S", std::vector<Elem>{elem("A", "1"), elem("B", std::vector<Elem>{elem("C", "x")})})})})})};
    v.hasExt = true; v.exts = {{elem("E", "text")}, {elem("F", std::vector<Elem>{elem("G")})}};
    Node t = node(DATATYPE, "ns=1;i=5", "1:DT"); t.def.present = true; t.def.fields = {{{{"Name", "a"}, {"DataType", "Str"}}}, {{{"Name", "b"}, {"DataType", "ns=1;s=x"}}}}; t.refs = {ref("i=45", "i=22", false)};
    Node e = node(OBJECT, "ns=1;i=7", "Default Binary"); e.refs = {ref("i=38", "ns=1;i=5", false)};
    Node m = node(METHOD, "ns=1;i=9", "1:M"); m.attrs = {{"ParentNodeId", "ns=1;s=obj"}};
    Node r = node(REFERENCETYPE, "ns=2;i=11", "2:R"); r.inv = txt("inverse"); r.refs = {ref("i=45", "i=33", false)};
    Node ot = node(OBJECTTYPE, "ns=1;i=12", "1:OT"); ot.refs = {ref("i=45", "i=58", false)};
    Node vt = node(VARIABLETYPE, "ns=1;i=13", "1:VT"); vt.desc = txt("vt");
    Node vw = node(VIEW, "ns=1;i=14", "1:View"); vw.attrs = {{"ContainsNoLoops", "true"}};
    d.nodes = {o, v, t, e, m, r, ot, vt, vw};
    return d;
}
// a smaller one for pairs
static Doc small() {
    Doc d; d.uris = {"http://a/"}; d.aliases = {{"HC", "i=47"}};
    Node o = node(DATATYPE, "ns=1;s=o", "1:O"); o.dn = txt("D"); o.refs = {ref("HC", "ns=1;i=3")}; o.def.present = true; o.def.fields = {{{{"Name", "a"}}}};
    Node v = node(VARIABLE, "ns=1;i=3", "1:V"); v.hasValue = true; v.value = {elem("Int32", "5")}; v.hasExt = true; v.exts = {{elem("E", "t")}};
    d.nodes = {o, v};
    return d;
}
static const std::vector<std::string> KNOWN = {"UAObject", "UAObjectType", "UAVariable", "UADataType", "UAMethod", "UAReferenceType", "UAVariableType", "UAView", "NamespaceUris", "Uri", "Aliases", "Alias",
    "UANodeSet", "DisplayName", "Description", "References", "Reference", "Value", "Extensions", "Extension", "Definition", "Field", "InverseName"};
static bool knownAt(const std::string &where, const std::string &n, bool dataType) {
    if(where == "top" || where == "aliases")
        return n == "Extensions" || n == "UANodeSet" || n == "Aliases" || n == "Alias" || n == "NamespaceUris" || n.compare(0, 2, "UA") == 0;
    if(where == "uris") return n == "Uri";
    if(where == "node") return n == "DisplayName" || n == "Description" || n == "References" || n == "Value" || n == "Extensions" || n == "InverseName" || (n == "Definition" && dataType);
    if(where == "refs") return n == "Reference";
    if(where == "def") return n == "Field";
    if(where == "exts") return n == "Extension";
    return false;
}
static const char *CHILD[] = {"<UAObject NodeId=\"ns=1;i=666\" BrowseName=\"1:X\"><DisplayName>x</DisplayName><References><Reference ReferenceType=\"i=47\">i=85</Reference></References></UAObject>",
    "<References><Reference ReferenceType=\"i=47\">ns=1;s=obj</Reference></References>", "<Reference ReferenceType=\"i=40\">i=1</Reference>", "<DisplayName Locale=\"xx\">no</DisplayName>", "<Description>no</Description>",
    "<InverseName>no</InverseName>", "<Value><Int32>9</Int32></Value>", "<Definition><Field Name=\"no\"/></Definition>", "<Field Name=\"no\" Value=\"3\"/>", "<NamespaceUris><Uri>http://no/</Uri></NamespaceUris>", "<Uri>http://no/</Uri>",
    "<Alias Alias=\"HC\">i=35</Alias>", "<Aliases><Alias Alias=\"Str\">i=35</Alias></Aliases>", "<Extensions><Extension><no/></Extension></Extensions>", "<Extension><no/></Extension>", "<UADataType NodeId=\"ns=1;i=5\" BrowseName=\"1:X\"><Definition><Field Name=\"q\"/></Definition></UADataType>"};
static const int NCHILD = sizeof CHILD / sizeof *CHILD;
// the content of an unknown element called n
static const int NBODY = 7 + NCHILD;
static std::string body(const std::string &n, int k) {
    switch(k) {
    case 0: return "<" + n + "/>";
    case 1: return "<" + n + ">text &amp; more</" + n + ">";
    case 2: return "<" + n + "><" + n + "><" + n + "/>x</" + n + "><a>y</a></" + n + ">";
    case 3: return "<" + n + " NodeId=\"ns=1;i=666\" BrowseName=\"1:Q\" Alias=\"Str\" ReferenceType=\"i=47\" Name=\"z\" Locale=\"l\" Value=\"3\" DataType=\"Str\"/>";
    case 4: return "<" + n + "/><" + n + "></" + n + ">";
    case 5: return "<x:" + n + " xmlns:x=\"u:x\"><x:y/></x:" + n + ">";
    case 6: return "<" + n + "><![CDATA[<UAObject>]]><!-- </x> --></" + n + ">";
    default: return "<" + n + ">" + CHILD[k - 7] + "</" + n + ">";
    }
}
typedef std::vector<std::pair<std::string, bool>> Where;
static int scan(const Doc &d, Where *wh) {
    int n = 0;
    xml(d, [&](const char *w) { n++; if(wh) wh->push_back({w, false}); return std::string(); });
    if(wh) {
        // whether the position lies in a data type: ask the spelling
        int i = 0;
        std::string s = xml(d, [&](const char *w) { return *w == '@' ? " p" + std::to_string(i++) + "=''" : "<p" + std::to_string(i++) + "/>"; });
        for(int k = 0; k < n; k++) {
            size_t p = s.find("<p" + std::to_string(k) + "/>");
            if(p == std::string::npos) continue;
            size_t b = s.rfind("<UADataType", p), e = s.rfind("</UADataType", p);
            (*wh)[k].second = b != std::string::npos && (e == std::string::npos || e < b);
        }
    }
    return n;
}
static const Where &gaps(const Doc &d) {
    static std::map<size_t, Where> cache;          // the two documents differ in their number of nodes
    Where &w = cache[d.nodes.size()];
    if(w.empty()) scan(d, &w);
    return w;
}
static std::vector<int> positions(const Where &wh) {
    std::vector<int> r;
    for(size_t i = 0; i < wh.size(); i++) if(wh[i].first[0] != '@' && wh[i].first != "prolog" && wh[i].first != "epilog") r.push_back((int)i);
    return r;
}
// one unknown subtree at every gap
static void oneElement() {
    Doc d = rich();
    const Where &wh = gaps(d);
    auto pos = positions(wh);
    int p = mc::pick(pos, "gap");
    int k = mc::choose((int)KNOWN.size() + 4, "name");
    static const char *UNK[] = {"Unknown", "UAObjectX", "Re", "displayname"};
    std::string n = k < 4 ? UNK[k] : KNOWN[k - 4];
    bool ext = mc::flag("extensions");
    if(knownAt(wh[p].first, n, wh[p].second)) return;
    int b = mc::choose(NBODY, "content");
    if(wh[p].first == "field" && b == 5) b = 0;
    // a prefix does not make an element unknown
    int i = 0;
    core::fullRaw({xml(d, [&](const char *) { return i++ == p ? body(n, b) : std::string(); })}, {d}, ext);
}
// two unknown subtrees
static void twoElements() {
    Doc d = mc::tier() ? rich() : small();
    const Where &wh = gaps(d);
    auto pos = positions(wh);
    int a = mc::choose((int)pos.size(), "first gap"), b = a + mc::choose((int)pos.size() - a, "second gap");
    static const std::vector<int> BS = {0, 1, 2, 7, 8, 13};
    int ba = mc::pick(BS, "first content"), bb = mc::pick(BS, "second content");
    int i = 0;
    core::fullRaw({xml(d, [&](const char *) { std::string r; int k = i++; if(k == pos[a]) r += body("Unknown", ba); if(k == pos[b]) r += body("RolePermissions", bb); return r; })}, {d}, true);
}
// deep and wide ones
static void deep() {
    Doc d = small();
    const Where &wh = gaps(d);
    int p = mc::pick(positions(wh), "gap"), n = mc::choose(mc::by_tier(40, 200), "size") + 1;
    int shape = mc::choose(3, "shape");
    std::string s;
    if(shape == 0) { for(int k = 0; k < n; k++) s += "<u>"; for(int k = 0; k < n; k++) s += "</u>"; }
    else if(shape == 1) { for(int k = 0; k < n; k++) s += "<u" + std::to_string(k) + "/>"; }
    else { s = "<u>"; for(int k = 0; k < n; k++) s += "<u>t</u>"; s += "</u>"; }
    int i = 0;
    core::fullRaw({xml(d, [&](const char *) { return i++ == p ? s : std::string(); })}, {d}, true);
}
// everywhere at once
static void everywhere() {
    Doc d = rich();
    const Where &wh = gaps(d);
    int b = mc::choose(NBODY, "content"), reps = mc::choose(3, "repetitions") + 1;
    bool ext = mc::flag("extensions");
    int i = 0;
    core::fullRaw({xml(d, [&](const char *w) { std::string r; if(*w != '@' && strcmp(w, "prolog") && strcmp(w, "epilog")) for(int k = 0; k < reps; k++) r += body("Unknown", b); else if(*w == '@') r = " Unknown=\"1\" u2='&amp;'"; return r; })}, {d}, ext);
}
// one unknown attribute at every start tag, before and after the known ones
static const std::vector<std::string> ATTR = {"NodeId", "BrowseName", "ParentNodeId", "DataType", "ValueRank", "ArrayDimensions", "AccessLevel", "UserAccessLevel", "Historizing", "MinimumSamplingInterval", "EventNotifier", "IsAbstract",
    "Symmetric", "Executable", "UserExecutable", "ContainsNoLoops", "Locale", "Alias", "ReferenceType", "IsForward", "Name", "Value", "IsOptional", "IsUnion", "IsOptionSet", "SymbolicName", "ReleaseStatus", "AccessRestrictions"};
static void attributes() {
    Doc d = rich();
    for(auto &n : d.nodes) n.hasExt = false;        // attributes of extension contents are delivered
    std::string s = xml(d);
    std::vector<size_t> tags;
    size_t root = s.find("<UANodeSet");
    for(size_t p = root; (p = s.find('<', p)) != std::string::npos; p++) if(s[p + 1] != '/') tags.push_back(p);
    size_t p = tags[mc::choose((int)tags.size(), "tag")];
    bool after = mc::flag("after the others");
    int k = mc::choose((int)ATTR.size() + 1, "name");
    std::string n;
    if(k == 0) n = mc::flag("prefixed") ? "xmlns:q=\"u:q\" q:unknown" : "unknown";
    else {
        std::string a = ATTR[k - 1];
        switch(mc::choose(5, "variation")) {
        case 0: n = a + "X"; break;
        case 1: n = a.substr(0, a.size() - 1); break;
        case 2: n = a; for(auto &c : n) c = (char)tolower(c); break;
        case 3: n = "X" + a; break;
        case 4: n = a + a; break;
        }
        for(auto &x : ATTR) if(n == x) return;
    }
    static const std::vector<std::string> V = {"ns=1;i=77", "true", ""};
    std::string at = " " + n + "=\"" + (mc::tier() ? mc::pick(V, "value") : V[k % 3]) + "\"";
    size_t e = after ? s.find('>', p) : s.find_first_of(" />", p);
    if(after && s[e - 1] == '/') e--;
    s.insert(e, at);
    core::fullRaw({s}, {d}, true);
}
// comments, processing instructions and white space before every tag
static void markup() {
    Doc d = mc::flag("small") ? small() : rich();
    std::string s = xml(d);
    std::vector<size_t> tags;
    size_t root = s.find("<UANodeSet");
    for(size_t p = root; (p = s.find('<', p)) != std::string::npos; p++) tags.push_back(p);
    tags.push_back(s.size());
    static const std::vector<std::string> M = {"<!--c-->", "<?pi data?>", "<!-- <UAObject NodeId='i=1'> </UANodeSet> & -->", "<!---->", "<!--" + std::string(1500, 'x') + "-->", "<?pi?><!--a--><!--b--><?pi?>", "<?UAObject <NodeId?>"};
    int a = mc::choose((int)tags.size(), "position");
    std::string m = mc::pick(M, "markup");
    int b = mc::tier() ? a + mc::choose((int)tags.size() - a, "second position") : a;
    if(b != a) s.insert(tags[b], mc::pick(M, "second markup"));
    s.insert(tags[a], m);
    core::fullRaw({s}, {d}, true);
}
static void whitespace() {
    Doc d = rich();
    static const std::vector<std::string> W = {"", "\n", "  ", "\t", "\r\n", "\n\n      \n"};
    std::string w = mc::pick(W, "white space");
    core::fullRaw({xml(d, [&](const char *p) { return *p == '@' ? (w.empty() ? "" : " " + w) : w; })}, {d}, true);
    static const std::vector<std::string> P = {"<!DOCTYPE UANodeSet>\n", "<!DOCTYPE UANodeSet [<!ELEMENT UANodeSet ANY>]>", "<?xml-stylesheet href='x'?>", "<!--c-->\n\n"};
    std::string pr = mc::pick(P, "prolog");
    core::fullRaw({xml(d, [&](const char *p) { return strcmp(p, "prolog") ? std::string() : pr; })}, {d}, true);
}
// one unknown element at every gap of the repository's own documents
static void repositoryDocuments() {
    auto &l = real::files(mc::by_tier(6000, 40000));
    int a = mc::choose((int)l.size(), "file");
    const Doc &d = l[a].doc;
    int n = 0, i = 0;
    std::vector<int> gaps;
    xml(d, [&](const char *w) { if(*w != '@' && strcmp(w, "prolog") && strcmp(w, "epilog")) gaps.push_back(n); n++; return std::string(); });
    int p = gaps[mc::choose((int)gaps.size(), "gap")];
    static const std::vector<std::string> U = {"<Unknown/>", "<Category>text</Category>", "<UAUnknown NodeId=\"ns=1;i=1\"><References><Reference ReferenceType=\"i=47\">i=1</Reference></References><DisplayName>x</DisplayName></UAUnknown>"};
    std::string u = mc::pick(U, "content");
    mc::input(l[a].name);
    core::fullRaw({xml(d, [&](const char *) { return i++ == p ? u : std::string(); })}, {d});
}
int main(int argc, char **argv) {
    mc::scenario("one-element", oneElement);
    mc::scenario("two-elements", twoElements);
    mc::scenario("deep", deep);
    mc::scenario("everywhere", everywhere);
    mc::scenario("attributes", attributes);
    mc::scenario("markup", markup);
    mc::scenario("whitespace", whitespace);
    mc::scenario("repository-documents", repositoryDocuments);
    return mc::run(argc, argv, {"C14", "one unknown subtree (27 names x 23 contents) at every gap of a document with every known element, all pairs of gaps with 6 contents each, unknown attributes resembling each known one at every tag, comments and processing instructions before every tag; three unknown elements at every gap of the documents in the repository"});
}
