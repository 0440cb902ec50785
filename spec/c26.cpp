#include "util/error.hpp"
#include "util/h5file.hpp"
#include "common.hpp"
#include <fstream>
#include <iostream>
#include <stdexcept>

namespace ref {
int risky();

// every name says which rule has to notice the function
void bad__handlers__empty()
{
    try {
        risky();
    } catch (Exception e) {
        std::cerr << e.what();
    }
}

void bad__handlers__sometimes()
{
    try {
        risky();
    } catch (...) {
        if (risky() > 1) {
            throw EXCEPT("");
        }
    }
}

void good__handlers()
{
    bool failed = false;
    try {
        risky();
    } catch (...) {
        failed = true;
    }
    if (failed) {
        throw EXCEPT("");
    }
}

void bad__thrown()
{
    throw std::runtime_error("");
}

void bad__dropped()
{
    EXCEPT("");
}

void bad__status()
{
    exit(0);
}

void bad__files()
{
    std::ofstream f("x");
    f << 1;
}

void good__files()
{
    std::ofstream f("x");
    if (!f) {
        throw EXCEPT("");
    }
    f << 1;
}

void bad__library(H5::CommonFG &node)
{
    node.openGroup("x");
}
} // namespace ref
