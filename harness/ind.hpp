#pragma once
#include "vs.hpp"
#include "geneva/GParameterSet.hpp"
using namespace Gem::Geneva;
// an individual whose fitness values are given by the harness
struct Ind : public GParameterSet {
  std::vector<double> f; int id = -1;
  Ind() : GParameterSet(std::size_t(1)), f(1, 0.) {}
  Ind(int i, std::vector<double> v) : GParameterSet(v.size()), f(v), id(i) {}
  Ind(const Ind &o) : GParameterSet(o), f(o.f), id(o.id) {}
  void load_(const GObject *cp) override { GParameterSet::load_(cp); auto p = static_cast<const Ind *>(cp); f = p->f; id = p->id; }
  GObject *clone_() const override { return new Ind(*this); }
  double fitnessCalculation() override { for (std::size_t i = 1; i < f.size(); i++) setResult(i, f[i]); return f[0]; }
};
