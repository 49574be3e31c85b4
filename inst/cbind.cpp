// explicit instantiation of the handle cache template, so that its bodies are extracted
#include <vital/bindings/c/helpers/c_utils.h>
struct verif_thing { int n; };
struct verif_handle;
namespace kwiver { namespace vital_c {
template class SharedPointerCache< verif_thing, verif_handle >;
} }
