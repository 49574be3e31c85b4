// explicit instantiation of the covariance templates, so that their bodies are extracted
#include <cstring>
#include <cassert>
#include <vital/types/covariance.h>
namespace kwiver { namespace vital {
#define COV( N ) \
  template class covariance_< N, double >; template class covariance_< N, float >; \
  template covariance_< N, double >::covariance_( const covariance_< N, float >& ); template covariance_< N, float >::covariance_( const covariance_< N, double >& ); \
  
COV( 2 )
COV( 3 )
COV( 4 )
} }
