// Reference definitions: what each operation has to leave behind, written as
// plainly as possible against the tree's own declarations.  They are parsed by
// the extractor only and never compiled into anything.
#pragma once
#include "pugixml.hpp"
#include "util/string_utils.hpp"
#include <cmath>
#include <vector>
using namespace mocc;
