// B10: ByteString values decode to the bytes their base64 text encodes
#include "batch.hpp"
using namespace model;
using back::Batch;

static const char *A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const std::string &b) {
    std::string o;
    for(size_t i = 0; i < b.size(); i += 3) {
        unsigned v = (unsigned char)b[i] << 16, n = 1;
        if(i + 1 < b.size()) { v |= (unsigned char)b[i + 1] << 8; n++; }
        if(i + 2 < b.size()) { v |= (unsigned char)b[i + 2]; n++; }
        for(unsigned k = 0; k < 4; k++) o += k <= n ? A64[v >> (18 - 6 * k) & 63] : '=';
    }
    return o;
}
static void list(const std::vector<std::string> &t, const char *type = "i=15") {
    std::vector<Elem> a;
    for(auto &s : t) a.push_back(elem("ByteString", s));
    Batch b;
    b.add(type, elem("ListOfByteString", a), 1);
    if(!t.empty()) b.add(type, elem("ByteString", t[t.size() / 2]));
    b.run();
}
// all contents of 1 and 2 bytes, 2 bytes after a full group, and (thorough) all of 3 bytes
static void contents() {
    int part = mc::choose(mc::by_tier(66, 67), "first byte / 4");
    std::vector<std::string> t;
    if(part == 65) { for(int a = 0; a < 256; a++) { t.push_back(enc(std::string(1, (char)a))); t.push_back(enc("abc" + std::string(1, (char)a))); } }
    else if(part == 66) {
        int hi = mc::choose(256, "first byte"), mid = mc::choose(16, "second byte / 16") * 16;
        for(int m = mid; m < mid + 16; m++) for(int l = 0; l < 256; l++) t.push_back(enc({(char)hi, (char)m, (char)l}));
    } else if(part == 64) t = {""};
    else for(int a = part * 4; a < part * 4 + 4; a++) for(int c = 0; c < 256; c++) { t.push_back(enc({(char)a, (char)c})); t.push_back(enc({'x', 'y', 'z', (char)a, (char)c})); t.push_back(enc({(char)c, (char)a, (char)(a ^ c)})); t.push_back(enc({(char)0, (char)c, (char)a})); }
    list(t);
}
// every text over letters, padding, white space and characters outside of the alphabet
static void texts() {
    static const std::vector<std::string> S = {"A", "Q", "/", "=", " ", "\n", "-", "\xc3\xa4"};
    int len = 1 + mc::choose(mc::by_tier(7, 9), "length"), in = std::min(len, 3);
    std::string pre;
    for(int i = in; i < len; i++) pre += mc::pick(S, "character");
    std::vector<std::string> t;
    int n = 1; for(int i = 0; i < in; i++) n *= (int)S.size();
    for(int k = 0; k < n; k++) { std::string s = pre; for(int i = 0, r = k; i < in; i++, r /= (int)S.size()) s += S[r % S.size()]; if(s.find_first_not_of(" \n") != std::string::npos) t.push_back(s); }
    list(t);
}
// one or two arbitrary characters at every position of a text
static void characters() {
    std::string c = core::pickChars("character");
    static const std::vector<std::string> T = {"QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDREU=", "QUJDRA=="};
    std::vector<std::string> t;
    for(auto &s : T) for(size_t p = 0; p <= s.size(); p++) { t.push_back(s.substr(0, p) + c + s.substr(p)); if(p < s.size()) t.push_back(s.substr(0, p) + c + s.substr(p + 1)); }
    if(c.find_first_not_of(" \t\r\n") != std::string::npos) t.push_back(c);
    list(t, mc::flag("subtype") ? "i=30" : "i=15");
}
static std::string bytes(int n, int seed) { std::string s; unsigned x = (unsigned)seed * 2654435761u + 1; for(int i = 0; i < n; i++) { x = x * 1664525 + 1013904223; s += (char)(x >> 24); } return s; }
// lengths with every line breaking
static void lines() {
    static const std::vector<std::string> NL = {"\n", "\r\n", " ", "\t", "\n    ", "\n\n", " \n \t"};
    static const std::vector<int> W = {1, 2, 3, 4, 5, 19, 64, 76, 1000};
    auto &nl = mc::pick(NL, "line break");
    int w = mc::pick(W, "width"), lead = mc::choose(4, "leading, trailing");
    int part = mc::choose(mc::by_tier(4, 16), "lengths");
    std::vector<std::string> t;
    for(int n = part * 50 + 1; n <= part * 50 + 50; n++) {
        std::string e = enc(bytes(n, n)), s;
        for(size_t i = 0; i < e.size(); i++) { if(i && i % (size_t)w == 0) s += nl; s += e[i]; }
        if(lead & 1) s = nl + s;
        if(lead & 2) s += nl;
        t.push_back(s);
    }
    list(t);
}
static void large() {
    static const std::vector<int> L = {255, 256, 257, 767, 768, 769, 1000, 3071, 3072, 3073, 4095, 4096, 10000, 49151, 49152, 65535, 65536, 100000, 300000};
    int n = mc::pick(L, "length"), seed = mc::choose(3, "content"), w = mc::choose(3, "lines");
    mc::slow(5);
    std::string e = enc(seed == 0 ? std::string((size_t)n, '\0') : seed == 1 ? std::string((size_t)n, '\xff') : bytes(n, 7)), s;
    if(!w) s = e; else for(size_t i = 0; i < e.size(); i++) { if(i && i % (w == 1 ? 76 : 4) == 0) s += "\n"; s += e[i]; }
    list({s, "QUI=", s + "="});
}
// as members of structures, unions, arrays
static void members() {
    static const std::vector<std::string> T = {"", "QUJD", "QQ==", "QQ=", "=", "====", "Q===", " Q U I = ", "!", "QUJD\nREVG"};
    Batch b;
    Node st = back::dataType("ns=1;i=1", "1:S"); back::field(st, "a", "i=15"); back::field(st, "l", "i=15", true); back::field(st, "o", "i=15", false, true); back::field(st, "z", "i=6");
    Node un = back::dataType("ns=1;i=2", "1:U", "i=12756"); un.def.attrs = {{"IsUnion", "true"}}; back::field(un, "b", "i=15"); back::field(un, "l", "i=15", true);
    Node sub = back::dataType("ns=1;i=3", "1:Bytes", "i=15");
    b.d.nodes = {st, un, sub};
    auto &x = mc::pick(T, "text"); auto &y = mc::pick(T, "text");
    auto xo = [](const Elem &e) { return elem("ExtensionObject", std::vector<Elem>{elem("TypeId", std::vector<Elem>{elem("Identifier", "i=5")}), elem("Body", std::vector<Elem>{e})}); };
    auto l = std::vector<Elem>{elem("ByteString", x), elem("ByteString", y), elem("ByteString", x)};
    std::vector<Elem> k = {elem("a", x), elem("l", l), elem("z", "77")};
    if(mc::flag("optional")) k.insert(k.begin() + 2, elem("o", y));
    b.add("ns=1;i=1", xo(elem("S", k)));
    b.add("ns=1;i=2", xo(elem("U", std::vector<Elem>{elem("SwitchField", "1"), elem("b", x)})));
    b.add("ns=1;i=2", xo(elem("U", std::vector<Elem>{elem("SwitchField", "2"), elem("l", l)})));
    b.add("ns=1;i=3", elem("ByteString", y));
    b.run();
}
int main(int argc, char **argv) {
    mc::scenario("contents", contents);
    mc::scenario("texts", texts);
    mc::scenario("characters", characters);
    mc::scenario("lines", lines);
    mc::scenario("large", large);
    mc::scenario("members", members);
    return mc::run(argc, argv, {"B10", "texts whose last group has unused bits that are not zero may decode either way; texts of white space only are not judged"});
}
