// src/winmain.cpp is compiled on every platform here; _WIN32 is only simulated around its own text
#include <boost/program_options/parsers.hpp>
#include <cctype>
using std::size_t;
#define _WIN32
#include PO_WINMAIN
#undef _WIN32
