#include "real.hpp"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <map>
#include <set>
#include <sys/stat.h>
using namespace model;
namespace real {
static std::string S(const xmlChar *c) { return c ? (const char *)c : ""; }
static std::string content(xmlNode *n) { xmlChar *c = xmlNodeGetContent(n); std::string r = S(c); xmlFree(c); return r; }
static bool ns(xmlNode *n) { return n->type == XML_ELEMENT_NODE; }
static std::vector<Attr> attrs(xmlNode *n) {
    std::vector<Attr> r;
    for(xmlAttr *a = n->properties; a; a = a->next) if(!a->ns) {
        xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1);
        r.push_back({S(a->name), S(v)});
        xmlFree(v);
    }
    return r;
}
static const std::string *at(const std::vector<Attr> &l, const char *n) { return attr(l, n); }
static Elem tree(xmlNode *n) {
    Elem e; e.name = S(n->name); e.attrs = attrs(n);
    for(xmlNode *k = n->children; k; k = k->next) if(ns(k)) e.kids.push_back(tree(k));
    if(e.kids.empty()) e.text = content(n);
    return e;
}
static Txt text(xmlNode *n) {
    Txt t; t.present = true;
    for(auto &a : attrs(n)) if(a.first == "Locale") { t.hasLocale = true; t.locale = a.second; }
    t.text = content(n); t.hasText = !t.text.empty();
    return t;
}
bool parse(const std::string &xml, Doc &d) {
    xmlDoc *doc = xmlReadMemory(xml.data(), (int)xml.size(), "x", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_NOENT | XML_PARSE_HUGE);
    if(!doc) return false;
    xmlNode *root = xmlDocGetRootElement(doc);
    bool ok = root && S(root->name) == "UANodeSet";
    for(xmlNode *c = ok ? root->children : nullptr; c; c = c->next) {
        if(!ns(c)) continue;
        std::string nm = S(c->name);
        if(nm == "NamespaceUris") {
            if(d.hasUris) ok = false;
            d.hasUris = true;
            for(xmlNode *k = c->children; k; k = k->next) if(ns(k)) d.uris.push_back(content(k));
        }
        else if(nm == "Aliases") {
            for(xmlNode *k = c->children; k; k = k->next) if(ns(k)) { auto a = attrs(k); const std::string *v = at(a, "Alias"); d.aliases.push_back({v ? *v : "", content(k)}); if(!v) ok = false; }
        }
        else for(int cls = 0; cls < NCLS; cls++) if(nm == CLS_ELEM[cls]) {
            Node n; n.cls = cls; n.hasId = n.hasBn = false;
            for(auto &a : attrs(c)) {
                if(a.first == "NodeId") { n.id = a.second; n.hasId = true; }
                else if(a.first == "BrowseName") { n.bn = a.second; n.hasBn = true; }
                else n.attrs.push_back(a);
            }
            for(xmlNode *k = c->children; k; k = k->next) {
                if(!ns(k)) continue;
                std::string kn = S(k->name);
                if(kn == "DisplayName") { if(n.dn.present) ok = false; n.dn = text(k); }
                else if(kn == "Description") { if(n.desc.present) ok = false; n.desc = text(k); }
                else if(kn == "InverseName") { if(n.inv.present) ok = false; n.inv = text(k); }
                else if(kn == "References") {
                    n.emptyRefs = true;
                    for(xmlNode *r = k->children; r; r = r->next) if(ns(r)) {
                        Ref x; auto a = attrs(r);
                        if(const std::string *v = at(a, "ReferenceType")) x.type = *v;
                        if(const std::string *v = at(a, "IsForward")) { x.hasFwd = true; x.fwd = *v; }
                        x.target = content(r);
                        n.refs.push_back(x);
                    }
                }
                else if(kn == "Definition") {
                    if(n.def.present) ok = false;
                    n.def.present = true; n.def.attrs = attrs(k);
                    for(xmlNode *f = k->children; f; f = f->next) if(ns(f) && S(f->name) == "Field") { Field x; x.attrs = attrs(f); n.def.fields.push_back(x); }
                }
                else if(kn == "Value") {
                    n.hasValue = true; n.value.clear();
                    for(xmlNode *v = k->children; v; v = v->next) if(ns(v)) n.value.push_back(tree(v));
                }
                else if(kn == "Extensions") {
                    for(xmlNode *x = k->children; x; x = x->next) if(ns(x) && S(x->name) == "Extension") {
                        n.hasExt = true; std::vector<Elem> l;
                        for(xmlNode *y = x->children; y; y = y->next) if(ns(y)) l.push_back(tree(y));
                        n.exts.push_back(l);
                    }
                }
            }
            d.nodes.push_back(n);
        }
    }
    xmlFreeDoc(doc);
    std::set<std::string> ids;                  // duplicates are C09's
    for(auto &n : d.nodes) if(!ids.insert(n.id).second) ok = false;
    return ok;
}
static void find(const std::string &dir, std::vector<std::string> &out) {
    DIR *d = opendir(dir.c_str());
    if(!d) return;
    while(dirent *e = readdir(d)) {
        std::string n = e->d_name, p = dir + "/" + n;
        if(n[0] == '.' || n[0] == '_') continue;
        struct stat st;
        if(lstat(p.c_str(), &st)) continue;
        if(S_ISDIR(st.st_mode)) find(p, out);
        else if(S_ISREG(st.st_mode) && n.size() > 4 && n.substr(n.size() - 4) == ".xml") out.push_back(p);
    }
    closedir(d);
}
const std::vector<File> &files(size_t maxSize) {
    static std::map<size_t, std::vector<File>> cache;
    auto it = cache.find(maxSize);
    if(it != cache.end()) return it->second;
    const char *r = getenv("VERIF_REPO");
    std::string repo = r && *r ? r : "/repo";
    std::vector<std::string> paths;
    find(repo + "/nodesets", paths); find(repo + "/tests", paths); find(repo + "/backends", paths);
    std::vector<File> l;
    for(auto &p : paths) {
        File f; f.name = p.substr(repo.size() + 1);
        FILE *h = fopen(p.c_str(), "r");
        if(!h) continue;
        char b[65536]; size_t n;
        while((n = fread(b, 1, sizeof b, h)) > 0) f.xml.append(b, n);
        fclose(h);
        if(f.xml.size() <= maxSize && parse(f.xml, f.doc)) l.push_back(f);
    }
    std::sort(l.begin(), l.end(), [](const File &a, const File &b) { return std::make_pair(a.xml.size(), a.name) < std::make_pair(b.xml.size(), b.name); });
    return cache[maxSize] = l;
}
}
