// explicit instantiation of the tokenize template, so that its body is extracted
#include <string>
#include <vector>
#include <vital/util/tokenize.h>
namespace kwiver { namespace vital {
template void tokenize< std::vector< std::string > >( std::string const&, std::vector< std::string >&, std::string const&, bool );
} }
