#include "model.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>

namespace model {
const char *CLS_ELEM[NCLS] = {"UAObject", "UAObjectType", "UAVariable", "UADataType", "UAMethod", "UAReferenceType", "UAVariableType", "UAView"};
Txt txt(const std::string &t) { Txt r; r.present = true; r.text = t; r.hasText = !t.empty(); return r; }
Txt txt(const std::string &t, const std::string &l) { Txt r = txt(t); r.hasLocale = true; r.locale = l; return r; }
Ref ref(const std::string &type, const std::string &target, bool fwd) {
    Ref r; r.type = type; r.target = target;
    if(!fwd) { r.hasFwd = true; r.fwd = "false"; }
    return r;
}
Elem elem(const std::string &name, const std::string &text) { Elem e; e.name = name; e.text = text; return e; }
Elem elem(const std::string &name, std::vector<Elem> kids) { Elem e; e.name = name; e.kids = kids; return e; }
Node node(int cls, const std::string &id, const std::string &bn) { Node n; n.cls = cls; n.id = id; n.bn = bn; return n; }
std::string esc(const std::string &s, bool attr) {
    std::string r;
    for(char c : s) switch(c) {
        case '&': r += "&amp;"; break;
        case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break;
        case '"': r += attr ? "&quot;" : "\""; break;
        case '\n': r += attr ? "&#10;" : "\n"; break;
        case '\r': r += "&#13;"; break;
        case '\t': r += attr ? "&#9;" : "\t"; break;
        default: r += c;
    }
    return r;
}
static std::string attrsXml(const std::vector<Attr> &a) {
    std::string r;
    for(auto &x : a) r += " " + x.first + "=\"" + esc(x.second, true) + "\"";
    return r;
}
static std::string elemXml(const Elem &e) {
    std::string r = "<" + e.name + attrsXml(e.attrs);
    if(e.kids.empty() && e.text.empty()) return r + "/>";
    r += ">" + esc(e.text);
    for(auto &k : e.kids) r += e.ws + elemXml(k);
    return r + e.ws + "</" + e.name + ">";
}
static std::string txtXml(const char *name, const Txt &t) {
    if(!t.present) return "";
    std::string r = std::string("<") + name;
    if(t.hasLocale) r += " Locale=\"" + esc(t.locale, true) + "\"";
    return r + ">" + esc(t.text) + "</" + name + ">\n";
}
std::string nodeXml(const Node &n, const Inject &inj) {
    auto I = [&](const char *w) { return inj ? inj(w) : std::string(); };
    std::string r = std::string("<") + CLS_ELEM[n.cls];
    if(n.hasId) r += " NodeId=\"" + esc(n.id, true) + "\"";
    if(n.hasBn) r += " BrowseName=\"" + esc(n.bn, true) + "\"";
    r += attrsXml(n.attrs) + I("@node") + ">\n" + I("node");
    r += txtXml("DisplayName", n.dn) + I("node") + txtXml("Description", n.desc) + I("node");
    if(!n.refs.empty() || n.emptyRefs) {
        r += "<References" + I("@refs") + ">" + I("refs");
        for(auto &f : n.refs) {
            r += "<Reference ReferenceType=\"" + esc(f.type, true) + "\"";
            if(f.hasFwd) r += " IsForward=\"" + esc(f.fwd, true) + "\"";
            r += I("@ref") + ">" + esc(f.target) + "</Reference>" + I("refs");
        }
        r += "</References>\n";
    }
    r += I("node") + txtXml("InverseName", n.inv);
    if(n.def.present) {
        r += "<Definition" + attrsXml(n.def.attrs) + I("@def") + ">" + I("def");
        for(auto &f : n.def.fields) r += "<Field" + attrsXml(f.attrs) + I("@field") + ">" + I("field") + "</Field>" + I("def");
        r += "</Definition>\n";
    }
    r += I("node");
    if(n.hasValue) {
        r += "<Value>";
        for(auto &e : n.value) r += elemXml(e);
        r += "</Value>\n" + I("node");
    }
    if(n.hasExt) {
        r += "<Extensions>" + I("exts");
        for(auto &x : n.exts) {
            r += "<Extension>";
            for(auto &e : x) r += elemXml(e);
            r += "</Extension>" + I("exts");
        }
        r += "</Extensions>\n" + I("node");
    }
    return r + "</" + CLS_ELEM[n.cls] + ">\n";
}
std::string xml(const Doc &d, const Inject &inj) {
    auto I = [&](const char *w) { return inj ? inj(w) : std::string(); };
    std::string r = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" + I("prolog") + "<UANodeSet xmlns=\"http://opcfoundation.org/UA/2011/03/UANodeSet.xsd\"" + I("@root") + ">\n" + I("top");
    if(d.hasUris || !d.uris.empty()) {
        r += "<NamespaceUris>" + I("uris");
        for(auto &u : d.uris) r += "<Uri>" + esc(u) + "</Uri>" + I("uris");
        r += "</NamespaceUris>\n" + I("top");
    }
    if(!d.aliases.empty()) {
        r += "<Aliases>" + I("aliases");
        for(auto &a : d.aliases) r += "<Alias Alias=\"" + esc(a.first, true) + "\">" + esc(a.second) + "</Alias>\n" + I("aliases");
        r += "</Aliases>\n" + I("top");
    }
    for(auto &n : d.nodes) r += nodeXml(n, inj) + I("top");
    return r + "</UANodeSet>\n" + I("epilog");
}

// ---------------------------------------------------------------- model
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
bool unb64(const std::string &s, std::string &out) {
    if(s.size() % 4) return false;
    out.clear();
    for(size_t i = 0; i < s.size(); i += 4) {
        unsigned v = 0; int pad = 0;
        for(int k = 0; k < 4; k++) {
            const char *p = s[i + k] ? strchr(B64, s[i + k]) : nullptr;
            if(s[i + k] == '=' && k >= 2 && i + 4 == s.size()) { pad++; v <<= 6; continue; }
            if(!p || pad) return false;
            v = v << 6 | (unsigned)(p - B64);
        }
        out += (char)(v >> 16);
        if(pad < 2) out += (char)(v >> 8);
        if(pad < 1) out += (char)v;
    }
    return true;
}
std::string hex(const std::string &s) {
    std::string r; char b[4];
    for(unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}
static bool digits(const std::string &s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }
NodeId parseId(const std::string &s0) {
    NodeId r, null;
    std::string s = s0;
    if(s.compare(0, 3, "ns=") == 0) {
        size_t p = s.find(';');
        if(p == std::string::npos || !digits(s.substr(3, p - 3))) return null;
        unsigned long v = strtoul(s.substr(3, p - 3).c_str(), nullptr, 10);
        if(v > 65535) return null;
        r.ns = (int)v;
        s = s.substr(p + 1);
    }
    if(s.size() < 2 || s[1] != '=') return null;
    std::string v = s.substr(2);
    r.t = s[0];
    switch(s[0]) {
    case 'i': if(!digits(v)) return null; r.v = std::to_string((uint32_t)strtoull(v.c_str(), nullptr, 10)); break;
    case 's': r.v = v; break;
    case 'g': {
        if(v.size() != 36) return null;
        std::string h;
        for(size_t i = 0; i < 36; i++) {
            bool dash = i == 8 || i == 13 || i == 18 || i == 23;
            if(dash != (v[i] == '-')) return null;
            if(!dash && !isxdigit((unsigned char)v[i])) return null;
            if(!dash) h += (char)tolower(v[i]);
        }
        r.v = h;
        break;
    }
    case 'b': { std::string o; if(!unb64(v, o)) return null; r.v = hex(o); break; }
    default: return null;
    }
    return r;
}
std::string NodeId::str() const { return std::to_string(ns) + ":" + t + "=" + v; }
bool nsHier(const NodeId &id) {
    if(id.ns != 0 || id.t != 'i') return false;
    static const std::set<std::string> H = {"33", "34", "35", "36", "44", "45", "46", "47", "48", "49", "56", "38",
                                           "129", "131", "15112", "16361", "16362", "14476", "15296", "15297"};
    return H.count(id.v) > 0;
}
std::string quote(const char *s) {
    if(!s) return "~";
    std::string r = "\"";
    for(; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if(c < 32 || c >= 127 || c == '"' || c == '\\') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
static std::string q(const std::string &s) { return quote(s.c_str()); }
std::string refsDump(std::vector<XRef> refs) {
    std::vector<std::string> v;
    for(auto &r : refs) v.push_back((r.fwd ? ">" : "<") + r.type + "|" + r.target);
    std::sort(v.begin(), v.end());
    std::string o;
    for(auto &s : v) o += "{" + s + "}";
    return o;
}
const std::string *attr(const std::vector<Attr> &a, const char *n) {
    for(auto &x : a) if(x.first == n) return &x.second;
    return nullptr;
}
static std::string wsOnlyNull(const std::string &s) {
    bool ws = true;
    for(char c : s) if(!strchr(" \t\n\r\v\f", c)) ws = false;
    return ws ? std::string("~") : q(s);
}
// below the root of a value the tree mirrors the XML: leaf elements with their text, others as lists
static std::string dataDump(const Elem &e, bool complexRoot = false) {
    std::string r = e.name;
    if(e.kids.empty() && !complexRoot) return r + "=" + wsOnlyNull(e.text);
    r += "(";
    for(auto &k : e.kids) r += dataDump(k) + ",";
    return r + ")";
}
static const Elem *kid(const Elem &e, const char *n) {
    for(auto &k : e.kids) if(k.name == n) return &k;
    return nullptr;
}
std::string valueDump(const Node &n) {
    if(!n.hasValue || n.cls != VARIABLE) return "~";
    if(n.value.empty()) return "arr=0 ext=0 type=~ ~";
    const Elem &e = n.value[0];
    auto typeOf = [](const Elem &x) {
        const Elem *t = kid(x, "TypeId");
        const Elem *i = t ? kid(*t, "Identifier") : nullptr;
        return i && !i->text.empty() ? q(i->text) : std::string("~");
    };
    if(e.name.compare(0, 6, "ListOf") == 0) {
        if(e.kids.empty()) return "arr=1 ext=0 type=~ " + e.name + "()";
        if(e.kids[0].name == "ExtensionObject") {
            std::string r = e.name + "(", type = "~";
            for(auto &x : e.kids) {
                type = typeOf(x);
                const Elem *b = kid(x, "Body");
                if(b && !b->kids.empty()) r += dataDump(b->kids[0]) + ",";
            }
            return "arr=1 ext=1 type=" + type + " " + r + ")";
        }
        return "arr=1 ext=0 type=" + q(e.kids[0].name) + " " + dataDump(e, true);
    }
    if(e.name == "ExtensionObject") {
        const Elem *b = kid(e, "Body");
        return "arr=0 ext=1 type=" + typeOf(e) + " " + (b && !b->kids.empty() ? dataDump(b->kids[0], true) : std::string("~"));
    }
    return "arr=0 ext=0 type=" + q(e.name) + " " + dataDump(e);
}
static void extEvents(const Elem &e, std::string &o) {
    o += "S(" + e.name;
    for(auto &a : e.attrs) o += " " + a.first + "=" + q(a.second);
    o += ")";
    std::string t = e.text;
    for(auto &k : e.kids) extEvents(k, o);
    // text directly before the end tag
    std::string last = e.kids.empty() ? e.text + e.ws : e.ws;
    o += "E(" + e.name + "," + (last.empty() ? std::string("~") : q(last)) + ")";
}

std::string extDump(const std::vector<Elem> &x) {
    std::string o = "N";
    for(auto &e : x) extEvents(e, o);
    return o + "F";
}
void Oracle::import(const Doc &d, const NsFn &ns) {
    std::vector<int> map; map.push_back(0);
    for(auto &u : d.uris) map.push_back(ns(u));
    auto tr = [&](NodeId id) { if(id.ns > 0 && id.ns < (int)map.size()) id.ns = map[id.ns]; return id; };
    std::map<std::string, NodeId> al;
    for(auto &a : d.aliases) if(!al.count(a.first)) al[a.first] = tr(parseId(a.second));
    auto res = [&](const std::string &s) { auto it = al.find(s); return it != al.end() ? it->second : tr(parseId(s)); };
    int file = files++;
    for(auto &n : d.nodes) {
        XNode x;
        x.cls = n.cls; x.file = file; x.index = (size_t)(&n - &d.nodes[0]);
        x.id = (n.hasId ? tr(parseId(n.id)) : NodeId()).str();
        auto A = [&](const char *name, const char *def) { const std::string *v = attr(n.attrs, name); return v ? q(*v) : quote(def); };
        std::string s;
        if(!n.hasBn) s += "bn=0:~";
        else {
            size_t c = n.bn.find(':');
            if(c == std::string::npos || !digits(n.bn.substr(0, c))) { s += "bn=0:" + q(n.bn); x.bnName = n.bn; }
            else {
                int k = atoi(n.bn.substr(0, c).c_str());
                if(k > 0 && k < (int)map.size()) k = map[k];
                s += "bn=" + std::to_string(k) + ":" + q(n.bn.substr(c + 1));
                x.bnNs = k; x.bnName = n.bn.substr(c + 1);
            }
        }
        auto T = [&](const char *k, const Txt &t) {
            s += std::string(" ") + k + "=";
            if(!t.present) { s += "~/~"; return; }
            s += (t.hasLocale ? q(t.locale) : std::string("~")) + "/" + (t.hasText ? q(t.text) : std::string("~"));
        };
        T("dn", n.dn); T("desc", n.desc);
        auto DT = [&]() { const std::string *v = attr(n.attrs, "DataType"); return x.dataType = res(v ? *v : std::string("i=24")).str(); };
        const std::string *p = attr(n.attrs, "ParentNodeId");
        NodeId pid;
        if(isInstance(n.cls)) { if(p) pid = tr(parseId(*p)); s += " parent=" + pid.str(); if(!pid.null()) x.parent = pid.str(); }
        switch(n.cls) {
        case OBJECT: s += " en=" + A("EventNotifier", "0"); break;
        case VARIABLE:
            s += " dt=" + DT() + " vr=" + A("ValueRank", "-1") + " ad=" + A("ArrayDimensions", "") + " al=" + A("AccessLevel", "1") +
                 " ual=" + A("UserAccessLevel", "1") + " h=" + A("Historizing", "false") + " msi=" + A("MinimumSamplingInterval", "-1");
            break;
        case VARIABLETYPE:
            s += " dt=" + DT() + " vr=" + A("ValueRank", "-1") + " ad=" + A("ArrayDimensions", "") + " ia=" + A("IsAbstract", "false");
            break;
        case OBJECTTYPE: case DATATYPE: s += " ia=" + A("IsAbstract", "false"); break;
        case METHOD: s += " ex=" + A("Executable", "true") + " uex=" + A("UserExecutable", "true"); break;
        case REFERENCETYPE: s += " sym=" + A("Symmetric", "false"); T("inv", n.inv); break;
        case VIEW: s += " cnl=" + A("ContainsNoLoops", "false") + " en=" + A("EventNotifier", "0"); break;
        }
        x.attrs = s;
        for(auto &r : n.refs) {
            XRef xr;
            NodeId t = res(r.type);
            xr.type = t.str();
            xr.target = res(r.target).str();
            xr.fwd = !r.hasFwd || r.fwd == "true" || r.fwd == "1";
            x.refs.push_back(xr);
            if(xr.type == "0:i=38" && !xr.fwd && n.hasBn) {
                size_t c = n.bn.find(':');
                std::string name = c != std::string::npos && digits(n.bn.substr(0, c)) ? n.bn.substr(c + 1) : n.bn;
                if(name == "Default Binary") bidi.push_back({xr.target, x.id, xr.type});
            }
        }
        x.value = valueDump(n);
        if(n.cls == DATATYPE && n.def.present) {
            auto B = [&](const char *k) { const std::string *v = attr(n.def.attrs, k); return v && (*v == "true" || *v == "1"); };
            bool os = B("IsOptionSet"), isEnum = false;
            std::string f;
            for(auto &fd : n.def.fields) {
                if(os) break;
                const std::string *dt0 = attr(fd.attrs, "DataType");
                x.fieldTypes.push_back(res(dt0 ? *dt0 : std::string("i=24")).str());
                const std::string *nm = attr(fd.attrs, "Name"), *v = attr(fd.attrs, "Value"), *dt = attr(fd.attrs, "DataType"),
                                  *vr = attr(fd.attrs, "ValueRank"), *io = attr(fd.attrs, "IsOptional");
                f += "[" + (nm ? q(*nm) : std::string("~"));
                if(v) { isEnum = true; f += " v=" + std::to_string(atoi(v->c_str())); }
                else f += " " + res(dt ? *dt : std::string("i=24")).str() + " vr=" + std::to_string(vr ? atoi(vr->c_str()) : -1) +
                         " opt=" + (io && (*io == "true" || *io == "1") ? "1" : "0");
                f += "]";
            }
            x.def = std::string("enum=") + (isEnum ? "1" : "0") + " union=" + (B("IsUnion") ? "1" : "0") + " os=" + (os ? "1" : "0") + f;
        } else x.def = "~";
        if(withExtensions && n.hasExt && !n.exts.empty()) {
            x.ext = extDump(n.exts.back());
        } else x.ext = "~";
        nodes.push_back(x);
    }
}
const XNode *Oracle::find(const std::string &id) const {
    if(byId.size() != nodes.size()) { byId.clear(); for(size_t i = 0; i < nodes.size(); i++) byId.insert({nodes[i].id, i}); }
    auto it = byId.find(id);
    return it != byId.end() ? &nodes[it->second] : nullptr;
}
static bool isNs0(const std::string &id) { return id.compare(0, 2, "0:") == 0; }
static bool builtinHier(const std::string &id) {
    NodeId n;
    if(!isNs0(id) || id.compare(2, 2, "i=")) return false;
    n.v = id.substr(4);
    return nsHier(n);
}
void Oracle::sort() {
    hierType.clear(); dumps.clear(); edges.clear();
    std::set<std::string> hier = extraHier, known = extraKnown;
    for(auto &n : nodes) if(n.cls == REFERENCETYPE) known.insert(n.id);
    auto isH = [&](const std::string &t) { return builtinHier(t) || hier.count(t); };
    for(bool ch = true; ch;) {
        ch = false;
        for(auto &n : nodes) if(n.cls == REFERENCETYPE && !isH(n.id))
            for(auto &r : n.refs) if(!r.fwd && r.type == "0:i=45" && isH(r.target)) { hier.insert(n.id); ch = true; }
    }
    unresolved = false;
    for(auto &n : nodes) for(auto &r : n.refs) {
        if(!isH(r.type) && !isNs0(r.type) && !known.count(r.type)) unresolved = true;
        hierType[r.type] = isH(r.type);
    }
    auto isTd = [&](const XNode &n, const XRef &r) { return (n.cls == OBJECT || n.cls == VARIABLE) && r.type == "0:i=40"; };
    auto E = [&](const std::string &p, const std::string &c) { if(p != c) edges.push_back({p, c}); };
    for(auto &n : nodes) {
        std::vector<XRef> h, nh, td;
        for(auto &r : n.refs) (isTd(n, r) ? td : isH(r.type) ? h : nh).push_back(r);
        for(auto &r : h) { if(r.fwd) E(n.id, r.target); else E(r.target, n.id); }
        std::set<std::string> types;
        if(h.empty() && !n.parent.empty()) {
            const XNode *p = find(n.parent);
            if(p) for(auto &r : p->refs) if(!isTd(*p, r) && isH(r.type) && r.fwd && r.target == n.id) types.insert(r.type);
            if(types.empty()) types.insert("0:i=47");
            E(n.parent, n.id);
        }
        std::set<std::string> ds;
        auto mk = [&](const std::vector<XRef> &hh) {
            return std::string(CLS_ELEM[n.cls]) + " " + n.id + " " + n.attrs + "\n  hier=" + refsDump(hh) + "\n  nonhier=" + refsDump(nh) + "\n  td=" + refsDump(td) +
                   "\n  value=" + n.value + "\n  def=" + n.def + "\n  ext=" + n.ext;
        };
        if(types.empty()) ds.insert(mk(h));
        else for(auto &t : types) { auto hh = h; hh.push_back({t, n.parent, false}); ds.insert(mk(hh)); }
        dumps.push_back(ds);
    }
    // cycle detection
    std::map<std::string, std::vector<std::string>> adj; std::map<std::string, int> indeg;
    for(auto &e : edges) { adj[e.first].push_back(e.second); indeg[e.second]++; indeg[e.first] += 0; }
    std::vector<std::string> q0; size_t done = 0;
    for(auto &k : indeg) if(k.second == 0) q0.push_back(k.first);
    while(!q0.empty()) { auto k = q0.back(); q0.pop_back(); done++; for(auto &t : adj[k]) if(--indeg[t] == 0) q0.push_back(t); }
    cyclic = done != indeg.size();
    sortOk = !cyclic && !unresolved;
}
bool orderOk(const std::vector<std::string> &order, const std::vector<std::pair<std::string, std::string>> &edges, std::string *why) {
    // first[k]: the earliest delivered node reachable from k (the relation is acyclic when sort succeeds)
    std::unordered_map<std::string, int> id; std::vector<const std::string *> name;
    auto I = [&](const std::string &s) { auto r = id.insert({s, (int)name.size()}); if(r.second) name.push_back(&r.first->first); return r.first->second; };
    std::vector<std::pair<int, int>> ed;
    for(auto &e : edges) { int a = I(e.first), b = I(e.second); ed.push_back({a, b}); }
    for(auto &o : order) I(o);
    size_t n = name.size();
    static const size_t NO = (size_t)-1;
    std::vector<size_t> pos(n, NO), first(n, NO);
    std::vector<int> out(n, 0);
    std::vector<std::vector<int>> preds(n);
    for(size_t i = 0; i < order.size(); i++) pos[id[order[i]]] = i;
    for(auto &e : ed) { preds[e.second].push_back(e.first); out[e.first]++; }
    std::vector<int> st;
    for(size_t i = 0; i < n; i++) if(!out[i]) st.push_back((int)i);
    while(!st.empty()) {
        int k = st.back(); st.pop_back();
        if(pos[k] != NO && first[k] < pos[k]) { if(why) *why = order[first[k]] + " is delivered before its ancestor " + *name[k]; return false; }
        size_t f = std::min(first[k], pos[k]);
        for(int p : preds[k]) { first[p] = std::min(first[p], f); if(--out[p] == 0) st.push_back(p); }
    }
    return true;
}
}  // namespace model
