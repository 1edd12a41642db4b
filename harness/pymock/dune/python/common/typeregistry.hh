#pragma once
#include <string>
#include <utility>
#include <dune/common/typelist.hh>
#include <dune/python/pybind11/pybind11.h>
namespace Dune::Python {
  struct GenerateTypeName { template<class... A> GenerateTypeName(const A&...) {} };
  struct IncludeFiles { template<class... A> IncludeFiles(const A&...) {} };
  // the class and whether it is new
  template<class T, class... O, class... A> std::pair<pybind11::class_<T, O...>, bool> insertClass(const pybind11::object& scope, const std::string& name, const A&...)
  {
    bool fresh = !pybind11::ClassData<T>::known;
    return {pybind11::class_<T, O...>(scope, name.c_str()), fresh};
  }
}
