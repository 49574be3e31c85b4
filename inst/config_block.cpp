// explicit instantiations of the member templates of config_block, so that their bodies are extracted
#include <vital/config/config_block.h>
namespace kwiver { namespace vital {
template int config_block::get_value< int >( config_block_key_t const& ) const;
template double config_block::get_value< double >( config_block_key_t const& ) const;
template bool config_block::get_value< bool >( config_block_key_t const& ) const;
template std::string config_block::get_value< std::string >( config_block_key_t const& ) const;
template int config_block::get_value< int >( config_block_key_t const&, int const& ) const;
template double config_block::get_value< double >( config_block_key_t const&, double const& ) const;
template bool config_block::get_value< bool >( config_block_key_t const&, bool const& ) const;
template std::string config_block::get_value< std::string >( config_block_key_t const&, std::string const& ) const;
template void config_block::set_value< int >( config_block_key_t const&, int const&, config_block_description_t const& );
template void config_block::set_value< double >( config_block_key_t const&, double const&, config_block_description_t const& );
template void config_block::set_value< int >( config_block_key_t const&, int const& );
template void config_block::set_value< bool >( config_block_key_t const&, bool const& );
template void config_block::set_value< std::string >( config_block_key_t const&, std::string const& );
} }
