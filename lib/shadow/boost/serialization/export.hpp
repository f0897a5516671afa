// Symbolic-side replacement: no static registration of archive types.
#pragma once
#include <boost/serialization/extended_type_info_typeid.hpp>
#include <boost/serialization/static_warning.hpp>
#include <boost/serialization/assume_abstract.hpp>
#include <boost/serialization/force_include.hpp>
#include <boost/serialization/singleton.hpp>
#define BOOST_CLASS_EXPORT_IMPLEMENT(T)
#define BOOST_CLASS_EXPORT_KEY2(T, K)
#define BOOST_CLASS_EXPORT_KEY(T)
#define BOOST_CLASS_EXPORT_GUID(T, K)
#define BOOST_CLASS_EXPORT(T)
