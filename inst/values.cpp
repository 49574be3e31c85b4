// explicit instantiation of the value class templates, so that their bodies are extracted
#include <vital/types/feature.h>
#include <vital/types/feature_set.h>
#include <vital/types/landmark.h>
#include <vital/types/landmark_map.h>
#include <vital/types/descriptor.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/color.h>
namespace kwiver { namespace vital {
template class descriptor_array_of< double >; template class descriptor_array_of< float >; template class descriptor_array_of< unsigned char >;
template class descriptor_fixed< double, 4 >; template class descriptor_fixed< float, 7 >; template class descriptor_fixed< unsigned char, 128 >;
template class descriptor_dynamic< double >; template class descriptor_dynamic< float >; template class descriptor_dynamic< unsigned char >;
inline void use_values() { rgb_color a, b( 1, 2, 3 ); bool c = a == b, d = a != b; (void) c; (void) d; simple_feature_set f; simple_descriptor_set g; simple_landmark_map h;
  f.size(); f.features(); g.size(); g.descriptors(); h.size(); h.landmarks(); }
} }
