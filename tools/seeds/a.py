seed('cache-batch-keeps-old', 'C01', [('include/k52/common/cache.h', '        cache_map_[it->key] = StoredValue<TValue>(it->value);',
'''        StoredValue<TValue>& slot = cache_map_[it->key];
        if (!slot.has_value())
        {
            slot = StoredValue<TValue>(it->value);
        }''')], '''
#include <k52/common/cache.h>
typedef k52::common::Cache<int, double> C;
int main() {
    C::shared_ptr c = C::Create(1); c->AddValue(1, 1.5);
    std::vector<C::CacheRecord> v; v.push_back(C::CacheRecord(2, 4)); v.push_back(C::CacheRecord(1, 2.5)); v.push_back(C::CacheRecord(2, 5));
    c->AddValues(v);
    CHECK(c->GetCachedValue(1) == 2.5); CHECK(c->GetCachedValue(2) == 5);
    return 0;
}
''', 'a batch store of a key that is already cached, or that the batch repeats', 'a batch does not replace the value of a key that is already stored')
seed('int-param-check-late', 'C02', [('src/optimization/params/int_parameter.cpp', '''    size_t chromosome_size = to - from;
    this->CheckForConstChromosomeSize(chromosome_size);

    value_ = IntParameter::GetIntFromChromosome(from, to) + min_value_;''', '''    value_ = IntParameter::GetIntFromChromosome(from, to) + min_value_;

    size_t chromosome_size = to - from;
    this->CheckForConstChromosomeSize(chromosome_size);''')], '''
#include <k52/optimization/params/int_parameter.h>
using namespace k52::optimization;
int main() {
    IntParameter p(7, 3, 20); ChromosomeType c(4, true); bool refused = false;
    try { p.SetFromChromosome(c.begin(), c.end()); } catch (const std::invalid_argument&) { refused = true; }
    CHECK(refused); CHECK(p.get_value() == 7);
    return 0;
}
''', 'reading a chromosome of a wrong size after a valid value was set', 'a refused chromosome changes the value of the parameter')
seed('akima-flat-by-eps', 'C20', [('src/dsp/akima_spline.cpp', 'if (d == 0)', 'if (d < 1e-10)')], '''
#include <k52/dsp/akima_spline.h>
using namespace k52::dsp;
int main() {
    // the same shape in other units gives the same spline in other units
    double y[8] = {0, 1, 3, 2, -1, 4, 4, 0}; std::vector<double> x, a, b;
    for (int i = 0; i < 8; ++i) { x.push_back(i); a.push_back(y[i]); b.push_back(y[i] * 1e-12); }
    AkimaSpline::shared_ptr s = AkimaSpline::Create(), t = AkimaSpline::Create(); s->Initialize(x, a); t->Initialize(x, b);
    for (double p = 0; p <= 7; p += 0.25) CHECK(std::fabs(t->Value(p) * 1e12 - s->Value(p)) < 1e-6);
    return 0;
}
''', 'training values whose neighbouring slopes differ by less than 1e-10', 'the slopes are the plain mean for small signals')
seed('wavelet-odd-length', 'C21', [('src/dsp/wavelet.cpp', '''            x = (x * 4) / (max_lenght() / 2);''', '''            x = (x * 8) / max_lenght();''')], '''
#include <k52/dsp/cwt.h>
using namespace k52::dsp;
struct F : IWavelet { std::vector<double> at; std::complex<double> GetValue(double t) { at.push_back(t); return std::complex<double>(t, 0); } };
int main() {
    for (int L = 8; L < 12; ++L) {
        F* f = new F; IWavelet::shared_ptr keep(f); Wavelet::BuildWavelet(keep, 2, L, 2);
        for (int i = 0, q = 0; i < 2; ++i) for (int j = 0; j < L; ++j, ++q) CHECK(std::fabs(f->at[q] - (j - L / 2.0) * std::exp(i / 2.0 * std::log(L / 2.0)) * 4 / (L / 2)) < 1e-9);
        }
    return 0;
}
''', 'an odd maximal wavelet length', 'the base function is sampled at other points when the length is odd')
seed('random-bool-drops-bit', 'C22', [('src/common/random.cpp', 'if( next_bit_in_bool_base_ >  max_bit_in_bool_base_)', 'if( next_bit_in_bool_base_ >=  max_bit_in_bool_base_)')], '''
static unsigned draws = 0;
extern "C" int rand() throw() { ++draws; return (draws & 1) ? 0x7fffffff : 0x2aaaaaaa; }
extern "C" void srand(unsigned) throw() {}
#include <k52/common/random.h>
int main() {
    k52::common::Random& r = k52::common::Random::Instance();
    // the source delivers 31 bits per draw: 10 draws make 310 booleans
    for (int i = 0; i < 310; ++i) { bool b = r.GetRandomBool(); unsigned d = i / 31, bit = i % 31, v = (d & 1) ? 0x2aaaaaaa : 0x7fffffff; CHECK(b == !((v >> bit) & 1)); }
    CHECK(draws == 10);
    return 0;
}
''', 'more than 30 booleans from one random number', 'the last bit of every random number is thrown away')
seed('convolution-skips-zero-real', 'C16', [('src/dsp/transform/circular_convolution.cpp', '''        for (std::size_t m = 0; m < N; ++m)
        {
''', '''        for (std::size_t m = 0; m < N; ++m)
        {
            if (first_sequence[m].real() == 0)
            {
                continue; // nothing to add
            }

''')], '''
#include <k52/dsp/transform/circular_convolution.h>
typedef std::complex<double> cx;
int main() {
    std::vector<cx> a(3), b(3); a[0] = cx(1, 2); a[1] = cx(0, 3); a[2] = cx(2, 0); b[0] = cx(1, 1); b[1] = cx(-1, 2); b[2] = cx(4, 0);
    std::vector<cx> r = k52::dsp::CircularConvolution().EvaluateConvolution(a, b);
    for (int n = 0; n < 3; ++n) { cx s = 0; for (int m = 0; m < 3; ++m) s += a[m] * b[(n - m + 3) % 3]; CHECK(std::abs(s - r[n]) < 1e-9); }
    return 0;
}
''', 'an element that is purely imaginary', 'purely imaginary elements of the first sequence are left out')
seed('fft-stale-imaginary', 'C17', [('src/dsp/transform/fast_fourier_transform.cpp', '            in_[n][1] = sequence[n].imag();', '''            if (sequence[n].imag() != 0)
            {
                in_[n][1] = sequence[n].imag();
            }'''),
 ('src/dsp/transform/fast_fourier_transform.cpp', 'FFTW_FORWARD, FFTW_PATIENT);', '''FFTW_FORWARD, FFTW_PATIENT);

        for (size_t n = 0; n < sequence_size_; ++n)
        {
            in_[n][1] = 0;
        }''')], '''
#include <k52/dsp/transform/fast_fourier_transform.h>
typedef std::complex<double> cx;
int main() {
    k52::dsp::FastFourierTransform f(2); std::vector<cx> v(2); v[0] = cx(1, 2); v[1] = cx(3, 4); f.Transform(v);
    v[0] = cx(1, 0); v[1] = cx(3, 0); std::vector<cx> r = f.Transform(v); CHECK(std::abs(r[0] - cx(4, 0)) < 1e-9); CHECK(std::abs(r[1] - cx(-2, 0)) < 1e-9); return 0;
}
''', 'a real sequence transformed after a complex one by the same object', 'the imaginary parts of an earlier input stay in the buffer')
seed('cwt-key-without-length', 'C18', [('src/dsp/transform/wavelet/fast_wavelet_transform.cpp', 'boost::make_tuple(wavelet, scale, N);', 'boost::make_tuple(wavelet, scale, size_t(0));'),
 ('src/dsp/transform/wavelet/fast_wavelet_transform.cpp', '    if (cache_ && cache_->IsCached(cache_key))\n    {\n        return cache_->GetCachedValue(cache_key);\n    }', '''    if (cache_ && cache_->IsCached(cache_key))
    {
        vector< complex< double > > cached = cache_->GetCachedValue(cache_key);
        cached.resize(N);
        return cached;
    }''')], '''
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/mhat_wavelet_function.h>
using namespace k52::dsp; typedef std::complex<double> cx;
struct T : FastWaveletTransform { T(IScale::shared_ptr s, size_t n, double l) : FastWaveletTransform(s, n, l) {}
    std::vector<cx> samples(IWavelet::shared_ptr w, double s, size_t n) const { return GetWaveletSamplesForConvolution(w, s, n); } };
int main() {
    IScale::shared_ptr s(new LinearScale(1, 3, 2)); T a(s, 8, 10), b(s, 8, -1); IWavelet::shared_ptr w(new MhatWaveletFunction);
    a.samples(w, 1.5, 16); std::vector<cx> p = a.samples(w, 1.5, 8), q = b.samples(w, 1.5, 8);
    CHECK(p.size() == q.size()); for (size_t i = 0; i < p.size(); ++i) CHECK(std::abs(p[i] - q[i]) < 1e-12);
    return 0;
}
''', 'samples of the same wavelet and scale asked for with another length before', 'cached samples of another length are used')
seed('tolerance-relative', 'C25', [('src/common/floating_point.cpp', 'return std::abs(x - y) < Constants::Eps;', 'return std::abs(x - y) < Constants::Eps * (1 + std::abs(x));')], '''
#include <k52/common/floating_point.h>
using k52::common::FloatingPoint;
int main() { CHECK(!FloatingPoint::AreEqual(1e6, 1e6 + 1e-6)); CHECK(FloatingPoint::AreEqual(1e3, 1e3 + 1e-11)); CHECK(!FloatingPoint::AreEqual(0, 1e-9)); return 0; }
''', 'large numbers that differ by more than the tolerance', 'the tolerance grows with the magnitude of the first number')
seed('haar-imag-edge', 'C26', [('src/dsp/haar_wavelet_function.cpp', 'if (x < -0.25 || x > 0.75 || x == 0.25)', 'if (x <= -0.25 || x >= 0.75 || x == 0.25)')], '''
#include <k52/dsp/haar_wavelet_function.h>
int main() { k52::dsp::HaarWaveletFunction h; CHECK(h.GetValue(-0.25).imag() == -1); CHECK(h.GetValue(0.75).imag() == 1); CHECK(h.GetValue(0.25).imag() == 0); CHECK(h.GetValue(0).imag() == -1); return 0; }
''', 'an argument exactly at an end of the support', 'the imaginary part is 0 at both ends of its support')
seed('statistics-copy-drops-invalid', 'C24', [('src/optimization/genetic_algorithm/generation_statistics.cpp', '        best_parameters_ = IParameters::shared_ptr( a.best_parameters_->Clone() );', '        best_parameters_ = a.best_parameters_;'),
 ], '''
#include <k52/optimization/generation_statistics.h>
#include <k52/optimization/params/continuous_parameters_array.h>
using namespace k52::optimization;
int main() {
    std::list<std::string> f; std::list<IndividualStatistics> l; std::vector<double> v(2, 1.0); ContinuousParametersArray p(v);
    GenerationStatistics a(1, &p, 2, 3, 4, 5, &f, l); GenerationStatistics b(a);
    CHECK(b.get_best_parameters() != a.get_best_parameters()); CHECK(b.get_best_fitness() == 2);
    return 0;
}
''', 'a copy of the statistics object', 'copies share the parameters instead of having an independent copy')
seed('log-scale-shift', 'C19', [('src/dsp/transform/wavelet/logarithmic_scale.cpp', 'double initial_scale = pow(2, min_exponent);', 'double initial_scale = min_exponent < 0 ? 1. / (1 << -min_exponent) : 1 << min_exponent;')], '''
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
int main() {
    int b[4] = {-3, 0, 31, -40};
    for (int k = 0; k < 4; ++k) { std::vector<double> s = k52::dsp::LogarithmicScale(b[k], b[k] + 2).GetScales(); CHECK(s.size() == 3); for (int i = 0; i < 3; ++i) CHECK(s[i] == std::ldexp(1.0, b[k] + i)); }
    return 0;
}
''', 'a first exponent of 31 or more, or of -31 or less', 'the powers of two overflow an int')
