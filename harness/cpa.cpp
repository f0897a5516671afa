// Copies, serialization and comparison: adaptors
#include "vs.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "ar.hpp"
using namespace Gem::Geneva; using Types = TypeList<>;
HARNESS h_gauss() { GDoubleGaussAdaptor o(0.5, 0.1, 0., 1., 0.25), p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_bigauss() { GDoubleBiGaussAdaptor o(0.25), p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_intgauss() { GInt32GaussAdaptor o(0.5, 0.1, 0., 1., 0.25), p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_flip() { GInt32FlipAdaptor o(0.5), p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_bool() { GBooleanAdaptor o(0.5), p; ar_copies<Types>(o, std::move(p)); }
