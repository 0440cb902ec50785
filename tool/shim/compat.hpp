// The prelude the project's build puts ahead of every source (newer libraries
// than the code was written for).  Holds no project code.
#pragma once
#include <iostream>
#include <H5Cpp.h>
#define CommonFG Group
