#include <string>
template class std::basic_string<char>;
