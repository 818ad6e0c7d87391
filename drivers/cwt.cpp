// instantiates the continuous transform that reports its progress
#include <algorithm>
#include <k52/dsp/cwt.h>
namespace k52 { namespace dsp {
struct ProgressReceiver { void operator()(double percent) const; };
template std::vector<std::vector<double> > ContiniousWaveletTransformation<ProgressReceiver>(const std::vector<double>&, Wavelet::shared_ptr, int, ProgressReceiver);
} }
