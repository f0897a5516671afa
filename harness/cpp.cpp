// Copies, serialization and comparison: parameter objects and collections
#include "vs.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GDoubleObjectCollection.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GInt32ObjectCollection.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GBooleanObjectCollection.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "ar.hpp"
using namespace Gem::Geneva;
using Types = TypeList<GDoubleGaussAdaptor, GDoubleBiGaussAdaptor, GInt32GaussAdaptor, GInt32FlipAdaptor, GBooleanAdaptor, GDoubleObject, GConstrainedDoubleObject, GInt32Object, GConstrainedInt32Object, GBooleanObject, GDoubleCollection, GInt32Collection, GBooleanCollection, GParameterObjectCollection>;
// objects with and without an adaptor; targets hold other values
template <class X, class A, class B> static void go(X &o, X &p, const A &a, const B &alt);
template <class X, class A> static void go(X &o, X &p, const A &a) { go(o, p, a, a); }
template <class X, class A, class B> static void go(X &o, X &p, const A &a, const B &alt) { o.setParameterName("first"); p.setParameterName("second"); p.blockRandomInitialization(); unsigned k = sym_choice("adaptors", std::is_same<A, B>::value ? 3 : 4); if (k > 0) o.addAdaptor(std::make_shared<A>(a)); if (k == 2) { A b(a); b.setAdaptionProbability(0.125); p.addAdaptor(std::make_shared<A>(b)); } if (k == 3) p.addAdaptor(std::make_shared<B>(alt)); ar_copies<Types>(o, std::move(p)); }
HARNESS h_double() { GDoubleObject o(1.5, -2., 3.), p(2.); GDoubleGaussAdaptor a(0.5, 0.1, 0., 1., 0.25); GDoubleBiGaussAdaptor b(0.5); go(o, p, a, b); }
HARNESS h_cdouble() { GConstrainedDoubleObject o(1.5, -2., 3.), p(2., 0., 9.); GDoubleGaussAdaptor a(0.5, 0.1, 0., 1., 0.25); go(o, p, a); }
HARNESS h_int() { GInt32Object o(1, -2, 3), p(2); GInt32FlipAdaptor a(0.25); go(o, p, a); }
HARNESS h_cint() { GConstrainedInt32Object o(1, -2, 3), p(2, 0, 9); GInt32GaussAdaptor a(0.5, 0.1, 0., 1., 0.25); go(o, p, a); }
HARNESS h_boolean() { GBooleanObject o(true), p(false); GBooleanAdaptor a(0.25); go(o, p, a); }
HARNESS h_doublecol() { GDoubleCollection o(2, 1.5, -2., 3.), p(1, 2., 0., 4.); GDoubleGaussAdaptor a(0.5, 0.1, 0., 1., 0.25); go(o, p, a); }
HARNESS h_cdoublecol() { GConstrainedDoubleCollection o(2, -2., 3.), p(1, 0., 4.); GDoubleGaussAdaptor a(0.5, 0.1, 0., 1., 0.25); go(o, p, a); }
HARNESS h_intcol() { GInt32Collection o(2, 1, -2, 3), p(1, 2, 0, 4); GInt32FlipAdaptor a(0.25); GInt32GaussAdaptor b(0.5, 0.1, 0., 1., 0.25); go(o, p, a, b); }
HARNESS h_boolcol() { GBooleanCollection o, p; o.push_back(true); o.push_back(false); p.push_back(true); GBooleanAdaptor a(0.25); go(o, p, a); }
template <class C, class X> static void col(X a, X b) { C o, p; o.push_back(std::make_shared<X>(a)); o.push_back(std::make_shared<X>(b)); if (sym_choice("items", 2)) p.push_back(std::make_shared<X>(b)); o.setParameterName("first"); ar_copies<Types>(o, std::move(p)); }
HARNESS h_dobjcol() { col<GDoubleObjectCollection>(GDoubleObject(1., -2., 3.), GDoubleObject(2., 0., 4.)); }
HARNESS h_cdobjcol() { col<GConstrainedDoubleObjectCollection>(GConstrainedDoubleObject(1., -2., 3.), GConstrainedDoubleObject(2., 0., 4.)); }
HARNESS h_iobjcol() { col<GInt32ObjectCollection>(GInt32Object(1, -2, 3), GInt32Object(2, 0, 4)); }
HARNESS h_ciobjcol() { col<GConstrainedInt32ObjectCollection>(GConstrainedInt32Object(1, -2, 3), GConstrainedInt32Object(2, 0, 4)); }
HARNESS h_bobjcol() { col<GBooleanObjectCollection>(GBooleanObject(true), GBooleanObject(false)); }
HARNESS h_nested() { GParameterObjectCollection o, p; o.push_back(std::make_shared<GDoubleObject>(1.)); auto q = std::make_shared<GParameterObjectCollection>(); q->push_back(std::make_shared<GInt32Object>(3)); q->push_back(std::make_shared<GBooleanObject>(true)); o.push_back(q); bool k = sym_choice("target", 2); if (k) p.push_back(std::make_shared<GInt32Object>(7)); if (k) p.push_back(std::make_shared<GDoubleObject>(8.)); ar_copies<Types>(o, std::move(p)); }
