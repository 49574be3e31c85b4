// instantiations of the sparse matrix enumeration, so that its bodies are extracted
#include <memory>
#include <Eigen/SparseCore>
#include <vital/util/enumerate_matrix.h>
template class kwiver::vital::sparse_matrix_enumerator< double, 0, int >;
namespace kwiver { namespace vital {
template sparse_matrix_enumerator< double, 0, int > enumerate< double, 0, int >( Eigen::SparseMatrix< double, 0, int > const& );
} }
