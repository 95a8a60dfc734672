// C12: delivered text does not depend on how the XML parser splits it
#include "core.hpp"
#include "real.hpp"
using namespace model;

struct Seg { std::string raw, text; };
static std::vector<Seg> SEGS = {{"plain", "plain"}, {"&amp;", "&"}, {"<![CDATA[c<d&amp;]]>", "c<d&amp;"}, {"<!-- no -->", ""}, {"&#65;", "A"}, {"\xc3\xa4", "\xc3\xa4"}, {"&#x20AC;", "\xe2\x82\xac"},
    {"&lt;&gt;", "<>"}, {"<?pi x?>", ""}, {" ", " "}, {"\xf0\x9f\x98\x80", "\xf0\x9f\x98\x80"}, {"\n", "\n"}, {"&quot;&apos;", "\"'"}, {"<![CDATA[]]>", ""}, {"\r\n", "\n"}, {"\t", "\t"}};
static const char *TOK = "TOKEN0815";
static std::string repl(std::string s, const std::string &a, const std::string &b) {
    for(size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
    return s;
}
static const int SITES = 9, ATTRS = 6;
// a document with text t at one site
static Doc site(int s, const std::string &t) {
    Doc d; d.uris = {"http://a/"};
    Node n = node(OBJECT, "ns=1;i=1", "1:N"), o = node(VARIABLE, "ns=1;i=2", "1:O");
    n.refs = {ref("i=35", "i=85", false)};
    switch(s) {
    case 0: n.dn = txt(t); break;
    case 1: n.desc = txt(t, "en"); n.dn = txt("x"); break;
    case 2: n.cls = REFERENCETYPE; n.inv = txt(t); break;
    case 3: d.aliases = {{"A", "ns=1;s=a" + t}}; n.refs[0].target = "A"; break;
    case 4: d.uris = {"http://a/" + t, "http://b/"}; break;
    case 5: n.refs.push_back(ref("i=41", "ns=1;s=t" + t)); break;
    case 6: o.hasValue = true; o.value = {elem("String", t)}; break;
    case 7: n.hasExt = true; n.exts = {{elem("E", t)}}; break;
    case 8: o.hasValue = true; o.value = {elem("ListOfString", std::vector<Elem>{elem("String", t), elem("String", "next")})}; break;
    // attributes
    case 9: n.bn = "1:B" + t; break;
    case 10: n.id = "ns=1;s=i" + t; break;
    case 11: n.dn = txt("x", "l" + t); break;
    case 12: n.cls = DATATYPE; n.def.present = true; n.def.fields = {{{{"Name", "f" + t}}}}; break;
    case 13: o.attrs = {{"ArrayDimensions", "1" + t}}; break;
    case 14: d.aliases = {{"A" + t, "i=84"}}; n.refs[0].target = "A"; n.refs[0].target += t; break;
    }
    d.nodes = {n, o};
    return d;
}
static void run(int s, const std::string &raw, const std::string &text) {
    // site 14 is used as attribute and as text: the raw form has to fit both
    std::string x = repl(xml(site(s, TOK)), TOK, raw);
    core::fullRaw({x}, {site(s, text)}, s == 7);
}
// all sequences of spelling segments at each text site
static void segments() {
    int s = mc::choose(SITES, "site");
    int n = mc::by_tier(3, 4);
    std::string raw, text;
    for(int i = 0; i < n; i++) {
        int k = mc::choose((int)(mc::tier() && n > 3 ? 13 : SEGS.size()) + 1, "segment");
        if(k == 0) break;
        raw += SEGS[k - 1].raw; text += SEGS[k - 1].text;
    }
    run(s, raw, text);
}
// the same for attribute values (white space there is normalised by XML: only as references)
static void attributes() {
    static const std::vector<Seg> A = {{"plain", "plain"}, {"&amp;", "&"}, {"&lt;", "<"}, {">", ">"}, {"&quot;", "\""}, {"&apos;", "'"}, {"'", "'"}, {"&#65;", "A"}, {"&#x20AC;", "\xe2\x82\xac"}, {"\xc3\xa4", "\xc3\xa4"},
        {"&#10;", "\n"}, {"&#9;", "\t"}, {" ", " "}, {"\xf0\x9f\x98\x80", "\xf0\x9f\x98\x80"}, {"&#38;amp;", "&amp;"}};
    int s = SITES + mc::choose(ATTRS, "site");
    int n = mc::by_tier(3, 4);
    std::string raw, text;
    for(int i = 0; i < n; i++) {
        int k = mc::choose((int)A.size() + 1, "segment");
        if(k == 0) break;
        if(s == 14 && A[k - 1].raw == "'") continue;
        raw += A[k - 1].raw; text += A[k - 1].text;
    }
    run(s, raw, text);
}
static Doc mixed() {
    Doc d; d.uris = {"http://a/\xc3\xa4", "http://b/?x&y"};
    d.aliases = {{"Has & \xe2\x82\xac", "i=47"}, {"Str", "ns=2;s=alias \xf0\x9f\x98\x80 value"}};
    Node n = node(OBJECT, "ns=1;s=n\xc3\xb6" "de & more", "1:Na<me>\"quoted\""); n.dn = txt("Display \xe2\x82\xac & <text>", "de"); n.desc = txt("Description"); n.refs = {ref("Has & \xe2\x82\xac", "ns=2;s=par&ent", false), ref("i=40", "Str")};
    Node v = node(VARIABLE, "ns=2;i=4711", "2:V"); v.attrs = {{"DataType", "Str"}, {"ValueRank", "-1"}}; v.hasValue = true; v.value = {elem("ListOfString", std::vector<Elem>{elem("String", "first &\xc3\xa4"), elem("String", "second")})};
    Node t = node(DATATYPE, "ns=1;i=3", "1:T"); t.def.present = true; t.def.fields = {{{{"Name", "f & g"}, {"DataType", "i=12"}}}, {{{"Name", "\xc3\xbc"}, {"Value", "3"}}}};
    t.def.fields.pop_back();
    Node r = node(REFERENCETYPE, "ns=1;i=5", "1:R"); r.inv = txt("Inverse & name", "en"); r.refs = {ref("i=45", "i=47", false)};
    v.hasExt = true; v.exts = {{elem("Ext", "e & \xe2\x82\xac x")}};
    d.nodes = {n, v, t, r};
    return d;
}
// every alignment against the read chunks
static void alignment() {
    int pad = mc::choose(mc::by_tier(1030, 2100), "padding");
    int where = mc::choose(2, "where");
    std::string x = xml(mixed());
    std::string c = "<!--" + std::string(pad, 'p') + "-->";
    if(pad == 0) c = "";
    if(where == 0) x.insert(x.find("<UANodeSet"), c);
    else x.insert(x.find("<UAObject"), c);
    core::fullRaw({x}, {mixed()}, true);
}
// lengths around the limits of arena, chunks and parser buffers
static void lengths() {
    mc::slow(60);
    static const std::vector<int> N = {1, 2, 3, 5, 255, 256, 257, 299, 300, 301, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 65535, 65536, 100000,
        524287, 524288, 524289, 1048574, 1048575, 1048576, 1048577, 2097151, 2097152, 3000000};
    int s = mc::choose(SITES + ATTRS, "site");
    int n = mc::pick(N, "length");
    int style = mc::choose(s < SITES ? 4 : 3, "style");
    if(n > 200000 && mc::tier() == 0 && (s > 1 && s != 6 && s != 9)) return;
    std::string raw, text;
    text.reserve(n + 10);
    int k = 0;
    while((int)text.size() < n) {
        char ch = (char)('a' + k++ % 23);
        switch(style) {
        case 0: raw += ch; text += ch; break;
        case 1: if(k % 5 == 0) { raw += "&amp;"; text += "&"; } else { raw += ch; text += ch; } break;
        case 2: if(k % 3 == 0) { raw += "\xe2\x82\xac"; text += "\xe2\x82\xac"; } else { raw += ch; text += ch; } break;
        case 3: if(k % 50 == 0) { raw += "<![CDATA[<"; raw += ch; raw += "]]>"; text += '<'; text += ch; } else if(k % 50 == 25) raw += "<!--c-->"; else { raw += ch; text += ch; } break;
        }
    }
    run(s, raw, text);
}
// a text that begins at every distance from the end of the arena region
static void regions() {
    mc::slow(60);
    int span = mc::by_tier(400, 700);
    int fill = mc::choose(span, "fill");
    int kind = mc::choose(3, "kind");
    Doc d; d.uris = {"http://a/"};
    Node f = node(OBJECT, "ns=1;i=1", "1:F"); f.desc = txt(std::string(1024 * 1024 - span + fill - 80, 'f'));
    Node n = node(VARIABLE, "ns=1;i=2", "1:Second name"); n.dn = txt(TOK, "en"); n.desc = txt("after"); n.hasValue = true; n.value = {elem("String", TOK)};
    static const char *RAW[] = {"short", "sp&amp;lit <![CDATA[te<xt]]> of &#8364; some length <!--x--> and more", nullptr};
    std::string raw, text;
    if(kind < 2) { raw = RAW[kind]; text = kind == 0 ? "short" : "sp&lit te<xt of \xe2\x82\xac some length  and more"; }
    else for(int i = 0; i < 300; i++) { raw += "abcdefg&amp;"; text += "abcdefg&"; }
    d.nodes = {f, n};
    std::string x = repl(xml(d), TOK, raw);
    d.nodes[1].dn = txt(text, "en"); d.nodes[1].value = {elem("String", text)};
    core::fullRaw({x}, {d});
}
// equivalent spellings of the document
static void spellings() {
    int how = mc::choose(10, "spelling"), pad = mc::choose(mc::by_tier(4, 40), "padding");
    Doc d = mixed();
    if(how == 4) { d = site(0, "\xc3\xa4\xc3\xb6"); }
    std::string x = xml(d);
    size_t hdr = x.find("?>") + 2;
    x.insert(x.find("<UANodeSet"), std::string(pad * 7, ' '));
    switch(how) {
    case 0: x = "\xef\xbb\xbf" + x; break;                                              // byte order mark
    case 1: x = x.substr(hdr); while(x[0] == '\n' || x[0] == ' ') x.erase(0, 1); break; // no declaration
    case 2: case 3: {                                                                   // UTF-16
        std::string o = how == 2 ? "\xff\xfe" : "\xfe\xff";
        x = repl(x, "encoding=\"utf-8\"", "encoding=\"UTF-16\"");
        for(size_t i = 0; i < x.size();) {
            unsigned c = (unsigned char)x[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
            unsigned v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
            for(int k = 1; k < n; k++) v = v << 6 | ((unsigned char)x[i + k] & 63);
            i += n;
            auto put = [&](unsigned u) { if(how == 2) { o += (char)u; o += (char)(u >> 8); } else { o += (char)(u >> 8); o += (char)u; } };
            if(v < 0x10000) put(v); else { v -= 0x10000; put(0xd800 + (v >> 10)); put(0xdc00 + (v & 1023)); }
        }
        x = o;
        break;
    }
    case 4: x = repl(x, "encoding=\"utf-8\"", "encoding=\"ISO-8859-1\""); x = repl(repl(x, "\xc3\xa4", "\xe4"), "\xc3\xb6", "\xf6"); break;
    case 5: x = repl(x, "<UANodeSet xmlns=", "<ua:UANodeSet xmlns:ua="); x = repl(x, "<UA", "<ua:UA"); x = repl(x, "</UA", "</ua:UA");   // prefixes
            for(const char *e : {"DisplayName", "References", "Reference", "Aliases", "Alias", "NamespaceUris", "Uri", "Description", "Value", "Definition", "Field", "InverseName", "Extensions", "Extension"}) { std::string n = e; x = repl(x, "<" + n + ">", "<ua:" + n + ">"); x = repl(x, "<" + n + " ", "<ua:" + n + " "); x = repl(x, "</" + n + ">", "</ua:" + n + ">"); } break;
    case 6: { std::string o; bool tag = false; for(size_t i = 0; i < x.size(); i++) {                // single quotes
                if(x.compare(i, 2, "<?") == 0) { size_t e = x.find("?>", i); o += x.substr(i, e + 2 - i); i = e + 1; continue; }
                if(x[i] == '<') tag = true; if(x[i] == '>') tag = false; o += tag && x[i] == '"' ? '\'' : x[i]; } x = o; break; }
    case 7: x = repl(x, "\n", "\r\n"); break;
    case 8: { std::string o; bool tag = false, q = false; for(char c : x) { if(c == '<') tag = true; if(tag && c == '"') q = !q; if(c == '>' && !q) tag = false; if(tag && !q && c == ' ') o += "\n \t "; else o += c; } x = o; break; }   // white space in tags
    case 9: x = repl(x, "\n<", "<"); break;
    }
    core::fullRaw({x}, {d}, true);
}
// the repository's own documents at every offset to the read boundaries
static void repositoryDocuments() {
    auto &l = real::files(mc::by_tier(9000, 40000));
    int a = mc::choose((int)l.size(), "file"), k = mc::choose(1024, "offset");
    std::string x = l[a].xml;
    size_t p = x.find("?>");
    p = p == std::string::npos ? 0 : p + 2;
    x.insert(p, std::string(k, k % 2 ? ' ' : '\n'));
    mc::input(l[a].name);
    core::fullRaw({x}, {l[a].doc});
}
int main(int argc, char **argv) {
    mc::scenario("segments", segments);
    mc::scenario("attributes", attributes);
    mc::scenario("alignment", alignment);
    mc::scenario("lengths", lengths);
    mc::scenario("regions", regions);
    mc::scenario("spellings", spellings);
    mc::scenario("repository-documents", repositoryDocuments);
    return mc::run(argc, argv, {"C12", "all sequences of up to 3 (thorough 4) spelling segments at 15 sites, every alignment against the 1024-byte chunks, lengths up to 3000000; the documents in the repository at all 1024 offsets to the read boundaries"});
}
