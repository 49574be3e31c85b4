// instantiations of the registrar and of the algorithm class templates, so that their bodies are extracted
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
class verif_algo : public kwiver::vital::algorithm_def< verif_algo >
{
public:
  static std::string static_type_name() { return "verif_algo"; }
};
class verif_impl : public kwiver::vital::algorithm_impl< verif_impl, verif_algo >
{
public:
  verif_impl() : number( 0 ) { }
  virtual std::string impl_name() const { return "verif_impl"; }
  virtual void set_configuration( kwiver::vital::config_block_sptr ) { }
  virtual bool check_configuration( kwiver::vital::config_block_sptr ) const { return true; }
  int number;
};
template class kwiver::vital::algorithm_def< verif_algo >;
template class kwiver::vital::algorithm_impl< verif_impl, verif_algo >;
namespace kwiver { namespace vital {
template bool registrar::register_item< algorithm >( std::string const&, std::shared_ptr< algorithm > );
template bool registrar::is_registered< algorithm >( std::string );
template bool registrar::is_registered< verif_algo >( std::string );
template std::vector< std::string > registrar::registered_names< algorithm >();
template std::shared_ptr< algorithm > registrar::find< algorithm >( const std::string& );
} }
