// one of the kinds of imports the program can choose
#include "program.hpp"
MC_IMPORT(, PART_CS, PART_GRAPH, PART_TAGS)
