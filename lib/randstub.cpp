// Stand-in for hap/GRandomFactory.cpp and hap/GRandomBase.cpp: seeds are irrelevant, raw random numbers are unconstrained.
#include "common/GGlobalDefines.hpp"
#include "hap/GRandomFactory.hpp"
#include "hap/GRandomBase.hpp"
#include "vs.hpp"
namespace Gem { namespace Hap {
std::atomic<bool> GRandomFactory::m_multiple_call_trap(false);
GRandomFactory::GRandomFactory() : m_seed_collection(1) {}
GRandomFactory::~GRandomFactory() {}
void GRandomFactory::init() {}
void GRandomFactory::finalize() {}
void GRandomFactory::setNProducerThreads(const std::uint16_t &) {}
seed_type GRandomFactory::getSeed() { return 1; }
std::unique_ptr<random_container> GRandomFactory::getNewRandomContainer() { void *p = ::operator new(sizeof(random_container)); new (p) std::size_t(0); return std::unique_ptr<random_container>(static_cast<random_container *>(p)); }
void GRandomFactory::returnUsedPackage(std::unique_ptr<random_container> &&p) { std::unique_ptr<random_container> q(std::move(p)); }
GRandomBase::GRandomBase() {}
GRandomBase::~GRandomBase() {}
GRandomBase::result_type GRandomBase::operator()() { return vs_sym("rnd_raw", 32); }
}}
