// Symbolic-side replacement: access to base objects without run-time registration of casts.
#pragma once
#include <boost/serialization/access.hpp>
#include <boost/serialization/force_include.hpp>
namespace boost { namespace serialization {
template <class Base, class Derived> Base &base_object(Derived &d) { return d; }
template <class Base, class Derived> const Base &base_object(const Derived &d) { return d; }
} }
