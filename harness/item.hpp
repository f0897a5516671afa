#pragma once
#include "vs.hpp"
#include "common/GCommonInterfaceT.hpp"
// a minimal class using the Gemfony interface; carries a symbolic payload
struct Item : public Gem::Common::GCommonInterfaceT<Item> {
  double v = 0; int tag = 0;
  Item() = default; Item(double a, int t) : v(a), tag(t) {}
  Item(const Item &) = default;
  template <class A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("v", v) & boost::serialization::make_nvp("tag", tag); }
  virtual ~Item() = default;
  bool operator==(const Item &o) const { return v == o.v && tag == o.tag; }
protected:
  void load_(const Item *p) override { v = p->v; tag = p->tag; }
  friend void Gem::Common::compare_base_t<Item>(Item const &, Item const &, Gem::Common::GToken &);
  void compare_(const Item &o, const Gem::Common::expectation &e, const double &) const override {
    Gem::Common::GToken t("Item", e);
    Gem::Common::compare_t(Gem::Common::getIdentity(v, o.v, std::string("v"), std::string("v")), t);
    Gem::Common::compare_t(Gem::Common::getIdentity(tag, o.tag, std::string("t"), std::string("t")), t); t.evaluate();
  }
  bool modify_GUnitTests_() override { return false; }
  void specificTestsNoFailureExpected_GUnitTests_() override {}
  void specificTestsFailuresExpected_GUnitTests_() override {}
  std::string name_() const override { return "Item"; }
  Item *clone_() const override { return new Item(*this); }
};
