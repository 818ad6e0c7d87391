// explicit instantiations: every member function of the cache is extracted for these key and value types
#include <k52/common/cache.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <boost/tuple/tuple_comparison.hpp>
#include <complex>
#include <vector>
namespace boost { size_t hash_value(k52::dsp::FastWaveletTransform::ScaledWaveletKey const&); }
namespace k52 { namespace common {
template class Cache<size_t, double>;
template class Cache<k52::dsp::FastWaveletTransform::ScaledWaveletKey, std::vector<std::complex<double> > >;
} }
