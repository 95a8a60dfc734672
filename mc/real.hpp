// The nodeset documents that come with the repository, read with libxml2's tree API into the model's form.
#pragma once
#include <string>
#include <vector>
#include "model.hpp"
namespace real {
struct File { std::string name, xml; model::Doc doc; };
// all documents below the repository (sorted by size) that are well-formed nodesets of at most the given size
const std::vector<File> &files(size_t maxSize);
bool parse(const std::string &xml, model::Doc &d);
}
