#pragma once
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/python/pybind11/pybind11.h>
namespace Dune::Python {
  template<class T> struct registerFieldVecMat { static void apply() {} };
}
