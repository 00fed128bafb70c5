// src/winmain.cpp is compiled on every platform here; _WIN32 is only simulated around its own text
#include <boost/program_options/parsers.hpp>
#include <cctype>
using std::size_t;
using namespace std;
#define _WIN32
#include PO_WINMAIN
#undef _WIN32
namespace winm {
std::vector<std::string> split(const std::string& s) { return boost::program_options::split_winmain(s); }
std::vector<std::wstring> split(const std::wstring& s) { return boost::program_options::split_winmain(s); }
}
