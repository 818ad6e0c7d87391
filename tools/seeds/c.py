seed('double-steps-truncated', 'C03', [('src/optimization/params/double_parameter.cpp', '    int max_int = (int)std::ceil((max_value - min_value)/precision);\n', '    int max_int = (int)((max_value - min_value)/precision);\n')], '''
#include <k52/optimization/params/double_parameter.h>
using k52::optimization::DoubleParameter;
int main() {
    // the last step of 7.5 counts: 7 steps are too few
    DoubleParameter a(0, 0, 7.5, 1), b(1, 1, 4.3, 0.3), c(0, 0, 8, 1);
    CHECK(a.get_actual_precision() <= 1); CHECK(b.get_actual_precision() <= 0.3); CHECK(c.get_actual_precision() <= 1);
    DoubleParameter d(0, 0, 15.25, 1), e(0, 0, 31.0625, 1); CHECK(d.get_actual_precision() <= 1); CHECK(e.get_actual_precision() <= 1);
    return 0;
}
''', 'an interval of 2^n - 1 steps and a fraction', 'a real parameter has larger steps than asked')
seed('double-meta-by-width', 'C03', [('src/optimization/params/double_parameter.cpp', '''    return max_value_ == double_parameter->max_value_ &&
        min_value_ == double_parameter->min_value_ && 
''', '''    return max_value_ - min_value_ == double_parameter->max_value_ - double_parameter->min_value_ &&
''')], '''
#include <k52/optimization/params/double_parameter.h>
using k52::optimization::DoubleParameter;
int main() {
    DoubleParameter a(0, 0, 4, 1), b(2, 2, 6, 1), c(1, 0, 4, 1), d(1, 1, 4, 1), e(0, 0, 4, 0.25);
    CHECK(!a.HasSameMetaParameters(&b)); CHECK(!b.HasSameMetaParameters(&a)); CHECK(a.HasSameMetaParameters(&c)); CHECK(!a.HasSameMetaParameters(&d)); CHECK(!a.HasSameMetaParameters(&e));
    return 0;
}
''', 'two intervals of the same width at different places', 'parameters that decode chromosomes differently are taken as the same encoding')
seed('composite-empty-part-ends', 'C04', [('src/optimization/params/composite_discrete_parameters.cpp', '''        ChromosomeType::iterator current_to = current_from + parameter_chromosome_size;
''', '''        if(current_from == to || parameter_chromosome_size == 0)
        {
            //Nothing left to be written
            break;
        }
        ChromosomeType::iterator current_to = current_from + parameter_chromosome_size;
''')], '''
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/int_parameter.h>
using namespace k52::optimization;
int main() {
    std::vector<IDiscreteParameters::shared_ptr> p; int lo[] = {0, 5, 0}, hi[] = {3, 5, 7}, v[] = {2, 5, 6};
    for (int i = 0; i < 3; ++i) p.push_back(IDiscreteParameters::shared_ptr(new IntParameter(v[i], lo[i], hi[i])));
    CompositeDiscreteParameters c; c.Initialize(p); CHECK(c.GetChromosomeSize() == 5);
    std::vector<bool> x(5); c.SetChromosome(x.begin(), x.end());
    CHECK(!x[0]); CHECK(x[1]); CHECK(!x[2]); CHECK(x[3]); CHECK(x[4]);
    return 0;
}
''', 'a parameter with a single possible value between other parameters', 'the parts after a part without genes are not encoded')
seed('composite-clone-shares', 'C04', [('src/optimization/params/composite_discrete_parameters.cpp', '''    clone->Initialize(parameters_set_);
    return clone;
''', '''    clone->parameters_set_ = parameters_set_;
    clone->initialization_checker_ = initialization_checker_;
    clone->CopyState(this);
    return clone;
''')], '''
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/int_parameter.h>
using namespace k52::optimization;
int main() {
    CompositeDiscreteParameters c; c.Initialize(IDiscreteParameters::shared_ptr(new IntParameter(2, 0, 3)), 3); CompositeDiscreteParameters* d = c.Clone();
    std::vector<bool> x(6, true); const std::vector<bool>& k = x; d->SetFromChromosome(k.begin(), k.end());
    std::vector<bool> y(6); c.SetChromosome(y.begin(), y.end()); for (int i = 0; i < 6; ++i) CHECK(y[i] == (i % 2 == 1));
    d->SetChromosome(y.begin(), y.end()); for (int i = 0; i < 6; ++i) CHECK(y[i]);
    delete d; return 0;
}
''', 'decoding a chromosome into a clone while the original is still in use', 'a clone of a composite shares its parts with the original')
