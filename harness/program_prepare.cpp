// the program itself, its templates are built in parts
#include "program.hpp"
MC_IMPORTS_CS(extern, Geo)
MC_IMPORTS_CS(extern, Sph)
MC_IMPORTS_CS(extern, Cart)
#include "app/../../src/app/prepare.cpp"
