// Instantiates table templates that the program itself does not use, so that
// their definitions are analysed as well.
#include "HDF5DataSet.hpp"

void witness(
    HDF5DataSet<1>& one, HDF5DataSet<2>& two, HDF5DataSet<3>& three,
    HDF5DataSet<4>& four, const std::filesystem::path& path) {
  one.ToContinuousMap();
  two.ToContinuousMap();
  three.ToContinuousMap();
  four.ToContinuousMap();
  HDF5DataSet<1>{path}.at(0);
  HDF5DataSet<2>{path}.at(0, 0);
  HDF5DataSet<3>{path}.at(0, 0, 0);
  HDF5DataSet<4>{path}.at(0, 0, 0, 0);
}
