#pragma once
#include "pybind11.h"
namespace pybind11 {
  // an array without a base object owns a copy of the data
  struct ArrayData { std::vector<ssize_t> shape; std::vector<double> values; };
  template<class T> struct array_t : object
  {
    array_t(std::vector<ssize_t> shape, std::vector<ssize_t> strides, const T* p) : object(&Tag<ArrayData>::c, new ArrayData)
    {
      ArrayData& d = data();
      d.shape = shape;
      fill(shape, strides, 0, reinterpret_cast<const char*>(p));
    }
    ArrayData& data() const { return *static_cast<ArrayData*>(ptr); }
    void fill(const std::vector<ssize_t>& shape, const std::vector<ssize_t>& strides, std::size_t k, const char* p)
    {
      if (k == shape.size()) { data().values.push_back(*reinterpret_cast<const T*>(p)); return; }
      for (ssize_t i = 0; i < shape[k]; ++i) fill(shape, strides, k+1, p + i*strides[k]);
    }
  };
}
