// instantiation unit: the header templates of program_options that no file under src instantiates
#include <boost/program_options.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <boost/optional.hpp>
namespace boost { namespace program_options {
namespace user_types {     // a class with a validator of its own, as an application declares one
  struct custom { int x; };
  void validate(boost::any& v, const std::vector<std::string>& xs, custom*, int);
  void validate(boost::any& v, const std::vector<std::wstring>& xs, custom*, int);
}
template void typed_value<user_types::custom, char>::xparse(boost::any&, const std::vector<std::string>&) const;
template void typed_value<std::vector<user_types::custom>, char>::xparse(boost::any&, const std::vector<std::string>&) const;
template void typed_value<std::vector<user_types::custom>, wchar_t>::xparse(boost::any&, const std::vector<std::wstring>&) const;
template void typed_value<boost::optional<user_types::custom>, char>::xparse(boost::any&, const std::vector<std::string>&) const;
template std::vector<std::string> to_internal(const std::vector<std::string>&);
template std::vector<std::string> to_internal(const std::vector<std::wstring>&);
template std::vector<std::string> collect_unrecognized(const std::vector<basic_option<char> >&, enum collect_unrecognized_mode);
template std::vector<std::wstring> collect_unrecognized(const std::vector<basic_option<wchar_t> >&, enum collect_unrecognized_mode);
template parsed_options parse_command_line(int, const char* const[], const options_description&, int, function1<std::pair<std::string, std::string>, const std::string&>);
template wparsed_options parse_command_line(int, const wchar_t* const[], const options_description&, int, function1<std::pair<std::string, std::string>, const std::string&>);
template class basic_command_line_parser<char>;
template class basic_command_line_parser<wchar_t>;
template class typed_value<int, char>;
template class typed_value<std::string, char>;
template class typed_value<int, wchar_t>;
template class typed_value<std::string, wchar_t>;
template class typed_value<bool, char>;
template class typed_value<bool, wchar_t>;
template void typed_value<std::vector<int>, char>::xparse(boost::any&, const std::vector<std::string>&) const;
template void typed_value<std::vector<std::string>, char>::xparse(boost::any&, const std::vector<std::string>&) const;
template void typed_value<std::vector<int>, wchar_t>::xparse(boost::any&, const std::vector<std::wstring>&) const;
template void typed_value<std::vector<std::string>, wchar_t>::xparse(boost::any&, const std::vector<std::wstring>&) const;
template void typed_value<boost::optional<int>, char>::xparse(boost::any&, const std::vector<std::string>&) const;
template void typed_value<boost::optional<int>, wchar_t>::xparse(boost::any&, const std::vector<std::wstring>&) const;
template void typed_value<boost::optional<std::string>, char>::xparse(boost::any&, const std::vector<std::string>&) const;
#ifndef BOOST_NO_CXX17_HDR_OPTIONAL
template void typed_value<std::optional<int>, char>::xparse(boost::any&, const std::vector<std::string>&) const;
#endif
template typed_value<int>* value<int>();
template typed_value<int>* value<int>(int*);
template typed_value<int, wchar_t>* wvalue<int>();
template typed_value<int, wchar_t>* wvalue<int>(int*);
}}
