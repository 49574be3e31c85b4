// explicit instantiation of member templates, so that their bodies are extracted
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <vital/types/covariance.h>
namespace kwiver { namespace vital {
template rotation_<double>::rotation_( const rotation_<float>& );
template rotation_<float>::rotation_( const rotation_<double>& );
template similarity_<double>::similarity_( const similarity_<float>& );
template similarity_<float>::similarity_( const similarity_<double>& );
} }
