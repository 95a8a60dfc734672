// many variables with values in one file
#pragma once
#include "back.hpp"
namespace back {
struct Batch {
    model::Doc d;
    int n = 0;
    Batch() { d.uris = {"u:a"}; }
    model::Node &add(const std::string &type, const std::vector<model::Elem> &value, int rank = -1) {
        using namespace model;
        Node v = base(VARIABLE, "ns=1;i=" + std::to_string(10000 + n), "1:V" + std::to_string(n));
        n++;
        v.attrs.push_back({"DataType", type});
        if(rank != -1) v.attrs.push_back({"ValueRank", std::to_string(rank)});
        v.hasValue = true; v.value = value;
        d.nodes.push_back(v);
        return d.nodes.back();
    }
    model::Node &add(const std::string &type, const model::Elem &e, int rank = -1) { return add(type, std::vector<model::Elem>{e}, rank); }
    // the same texts as scalars and as one array
    void texts(const std::string &type, const std::string &name, const std::vector<std::string> &t, size_t from = 0, size_t to = ~(size_t)0) {
        using namespace model;
        std::vector<Elem> a;
        for(size_t i = from; i < t.size() && i < to; i++) { Elem e = elem(name, t[i]); add(type, e); a.push_back(e); }
        add(type, elem("ListOf" + name, a), 1);
    }
    void elems(const std::string &type, const std::string &name, const std::vector<model::Elem> &a) {
        for(auto &e : a) add(type, e);
        add(type, model::elem("ListOf" + name, a), 1);
    }
    bool run(bool ext = false) { full(std::vector<model::Doc>{d}, ext); return true; }
};
}  // namespace back
