// Reference model of the custom data types a load registers and of the values it stores.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "back.hpp"

namespace mtypes {
struct Member { std::string name, type; bool arr = false, opt = false; unsigned pad = 0; };
struct Type {
    std::string id, name, enc = "0:i=0";
    int kind = 0;
    unsigned size = 0, align = 1;
    bool pf = true, custom = false, abstract = false;
    bool judged = true;                     // layout fully specified
    std::vector<Member> m;
};
struct Reg {
    std::map<std::string, Type> types;
    size_t customs = 0;
    Reg();                                  // namespace 0
    const Type *find(const std::string &id) const;
    // adds the data types of a file that has been loaded; sp is the address space after the load
    void add(const model::Doc &d, const std::vector<model::XNode> &nodes, const std::vector<model::Bidi> &bidi, const back::Space &sp);
    // expected text of the value of a Variable ("?": not judged)
    std::string value(const back::Space &sp, const model::Doc &d, const model::Node &n, const model::XNode &x) const;
    bool check(UA_Server *s, const std::string &prefix = "") const;
};
}  // namespace mtypes
