/* Stand-in used only when clang dumps the AST of the sources that include
   pybind11 without using it (reconstruct.h).  See cast_loader.py. */
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <vector>
