// The part of HDF5's C++ interface that the code in question uses, on files in memory. Misuse is a violation: parallel files
// that are not created and extended by all ranks of their communicator in the same way, files that are opened twice while
// one side writes, data sets that exist already, selections out of bounds or of different sizes, elements written twice.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <mpi.h>

#include <vp/hb.hpp>
#include <vp/mpi_rt.hpp>
#include <vp/runtime.hpp>

#ifndef MPI_INFO_NULL
struct vp_mpi_info;
#define MPI_INFO_NULL ((vp_mpi_info*) nullptr)
#endif

using hsize_t = unsigned long long;
using hid_t = std::int64_t;
using herr_t = int;
#define H5F_ACC_RDONLY 0x0000u
#define H5F_ACC_RDWR 0x0001u
#define H5F_ACC_TRUNC 0x0002u
#define H5F_ACC_EXCL 0x0004u
#define H5F_ACC_CREAT 0x0010u
enum H5S_seloper_t { H5S_SELECT_SET = 0 };
enum H5F_scope_t { H5F_SCOPE_LOCAL = 0, H5F_SCOPE_GLOBAL = 1 };

namespace vp::h5 {
struct Dataset {
  int type = 0;
  std::vector<hsize_t> dims;
  std::vector<double> v;           // (represents floats exactly)
  std::vector<unsigned char> set;  // how often every element was written
  std::vector<int> writer;
  std::set<int> creators;          // ranks that took part in the creation
};
struct File {
  std::map<std::string, std::shared_ptr<Dataset>> sets;
  std::vector<std::string> order;         // of creation
  std::map<int, std::size_t> created_by;  // number of data sets a rank took part in
  std::vector<int> ranks;                 // parallel files: of the communicator
  std::set<int> joined;
  int readers = 0, writers = 0;
};
inline std::map<std::string, std::shared_ptr<File>>& files() {
  static std::map<std::string, std::shared_ptr<File>> f;
  return f;
}
inline void reset() {
  files().clear();
}
[[noreturn]] inline void error(const std::string& s) {
  vp::violation("HDF5: " + s);
  __builtin_unreachable();
}
// at the end of an execution: what was done collectively was done by all
inline void check_end() {
  for (const auto& f : files()) {
    if (f.second->writers || f.second->readers)
      error("file " + f.first + " is still open");
    if (f.second->ranks.empty())
      continue;
    if (f.second->joined.size() != f.second->ranks.size())
      error("not all ranks have created " + f.first);
    for (const auto& d : f.second->sets)
      if (d.second->creators.size() != f.second->ranks.size())
        error("not all ranks have created the data set " + d.first + " of " + f.first);
  }
}
struct Handle {
  std::shared_ptr<File> file;
  std::string name;
  bool write;
  Handle(std::shared_ptr<File> f, std::string n, bool w) : file(std::move(f)), name(std::move(n)), write(w) {
    ++(write ? file->writers : file->readers);
  }
  ~Handle() {
    vp::HbIgnore h;
    --(write ? file->writers : file->readers);
  }
  Handle(const Handle&) = delete;
};
}

namespace H5 {
class DataType {
public:
  explicit DataType(int t = 0) : t_(t) {}
  bool operator==(const DataType& x) const {
    return t_ == x.t_;
  }
  int vp_type() const {
    return t_;
  }

private:
  int t_;
};
class PredType : public DataType {
public:
  static const PredType &NATIVE_FLOAT, &NATIVE_DOUBLE, &NATIVE_INT, &NATIVE_CHAR, &NATIVE_LDOUBLE;
  explicit PredType(int t) : DataType(t) {}
};
inline const PredType vp_types[] = {PredType(1), PredType(2), PredType(3), PredType(4), PredType(5)};
inline const PredType &PredType::NATIVE_FLOAT = vp_types[0], &PredType::NATIVE_DOUBLE = vp_types[1], &PredType::NATIVE_INT = vp_types[2],
                      &PredType::NATIVE_CHAR = vp_types[3], &PredType::NATIVE_LDOUBLE = vp_types[4];

class DataSpace {
  struct Impl {
    std::vector<hsize_t> dims, count, start;
  };
  std::shared_ptr<Impl> p_;

public:
  DataSpace() {}
  DataSpace(int rank, const hsize_t* dims, const hsize_t* = nullptr) : p_(std::make_shared<Impl>()) {
    vp::HbIgnore h;
    p_->dims.assign(dims, dims + rank);
  }
  explicit DataSpace(const std::vector<hsize_t>& d) : DataSpace(int(d.size()), d.data()) {}
  void selectHyperslab(H5S_seloper_t, const hsize_t* count, const hsize_t* start, const hsize_t* stride = nullptr, const hsize_t* block = nullptr) const {
    vp::HbIgnore h;
    if (stride || block)
      vp::h5::error("selection is not supported");
    p_->count.assign(count, count + p_->dims.size());
    p_->start.assign(start, start + p_->dims.size());
  }
  int getSimpleExtentNdims() const {
    return int(p_->dims.size());
  }
  int getSimpleExtentDims(hsize_t* d, hsize_t* = nullptr) const {
    for (std::size_t k = 0; k < p_->dims.size(); ++k)
      d[k] = p_->dims[k];
    return int(p_->dims.size());
  }
  const std::vector<hsize_t>& vp_dims() const {
    return p_->dims;
  }
  // positions of the selected elements, in order
  std::vector<std::size_t> vp_selected(const char* what) const {
    const auto& d = p_->dims;
    auto c = p_->count, s = p_->start;
    if (c.empty())
      c = d, s.assign(d.size(), 0);
    std::size_t n = 1;
    for (std::size_t k = 0; k < d.size(); ++k)
      n *= c[k];
    std::vector<std::size_t> r;
    if (n == 0)
      return r;
    for (std::size_t k = 0; k < d.size(); ++k)
      if (s[k] + c[k] > d[k] || s[k] + c[k] < s[k])
        vp::h5::error(vp::fmt("the selection in %s is out of bounds: dimension %zu, %llu elements from %llu of %llu", what, k, c[k], s[k], d[k]));
    std::vector<hsize_t> i(d.size());
    for (std::size_t e = 0; e < n; ++e) {
      std::size_t pos = 0;
      for (std::size_t k = 0; k < d.size(); ++k)
        pos = pos * d[k] + s[k] + i[k];
      r.push_back(pos);
      for (std::size_t k = d.size(); k-- > 0;) {
        if (++i[k] < c[k])
          break;
        i[k] = 0;
      }
    }
    return r;
  }
};

class DataSet {
  std::shared_ptr<vp::h5::Handle> file_;
  std::shared_ptr<vp::h5::Dataset> d_;

  static std::size_t size_of(const DataType& t) {
    switch (t.vp_type()) {
      case 1: return sizeof(float);
      case 2: return sizeof(double);
    }
    vp::h5::error("type of the elements in memory is not supported");
  }
  template <class F>
  void each(const DataType& t, const DataSpace& mem, const DataSpace& file, F f) const {
    const auto m = mem.vp_selected("memory"), p = file.vp_selected("the file");
    if (file.vp_dims() != d_->dims)
      vp::h5::error("not a data space of this data set");
    if (m.size() != p.size())
      vp::h5::error(vp::fmt("%zu elements are selected in memory and %zu in the file", m.size(), p.size()));
    const std::size_t s = size_of(t);
    for (std::size_t k = 0; k < m.size(); ++k)
      f(m[k] * s, p[k]);
  }

public:
  DataSet() {}
  DataSet(std::shared_ptr<vp::h5::Handle> f, std::shared_ptr<vp::h5::Dataset> d) : file_(std::move(f)), d_(std::move(d)) {}
  DataSpace getSpace() const {
    vp::HbIgnore h;
    return DataSpace(d_->dims);
  }
  DataType getDataType() const {
    return DataType(d_->type);
  }
  void write(const void* buf, const DataType& t, const DataSpace& mem, const DataSpace& file) const {
    vp::HbIgnore h;
    if (!file_->write)
      vp::h5::error("write to a file opened for reading");
    const int rank = vp::current_rank();
    each(t, mem, file, [&](std::size_t m, std::size_t p) {
      const char* x = static_cast<const char*>(buf) + m;
      if (d_->set[p]++)
        vp::h5::error(vp::fmt("element %zu is written again (by rank %d, before by rank %d)", p, rank, d_->writer[p]));
      d_->writer[p] = rank;
      d_->v[p] = t.vp_type() == 1 ? double(*reinterpret_cast<const float*>(x)) : *reinterpret_cast<const double*>(x);
      if (d_->type == 1)
        d_->v[p] = float(d_->v[p]);
      announce(x, t, false);
    });
  }
  void read(void* buf, const DataType& t, const DataSpace& mem, const DataSpace& file) const {
    vp::HbIgnore h;
    each(t, mem, file, [&](std::size_t m, std::size_t p) {
      char* x = static_cast<char*>(buf) + m;
      if (t.vp_type() == 1)
        *reinterpret_cast<float*>(x) = float(d_->v[p]);
      else
        *reinterpret_cast<double*>(x) = d_->v[p];
      announce(x, t, true);
    });
  }

private:
  static void announce(const void* p, const DataType& t, bool write) {
    vp::hb_ignore_add(-1);
    vp::hb_mem(p, size_of(t), write, write ? "H5 read" : "H5 write");
    vp::hb_ignore_add(1);
  }
};

class FileCreatPropList {};
class FileAccPropList {
public:
  std::shared_ptr<std::vector<int>> vp_ranks = std::make_shared<std::vector<int>>();
  hid_t getId() const {
    return reinterpret_cast<hid_t>(vp_ranks.get());
  }
};

class H5File {
  std::shared_ptr<vp::h5::Handle> h_;

public:
  H5File() {}
  H5File(const std::string& name, unsigned flags, const FileCreatPropList& = {}, const FileAccPropList& acc = {}) {
    vp::HbIgnore h;
    using namespace vp::h5;
    const int rank = vp::current_rank();
    const bool mpio = !acc.vp_ranks->empty(), write = flags & H5F_ACC_RDWR;
    auto it = files().find(name);
    const bool exists = it != files().end();
    if (!exists && !(flags & (H5F_ACC_CREAT | H5F_ACC_TRUNC | H5F_ACC_EXCL)))
      error("file " + name + " does not exist");
    if (exists && (flags & H5F_ACC_EXCL))
      error("file " + name + " exists");
    if (exists && (flags & H5F_ACC_TRUNC))
      error("file " + name + " gets truncated");
    if (!exists) {
      auto f = std::make_shared<File>();
      f->ranks = *acc.vp_ranks;
      it = files().emplace(name, std::move(f)).first;
    }
    auto& f = *it->second;
    if (mpio) {
      if (f.ranks != *acc.vp_ranks)
        error("file " + name + " is opened by other ranks than those that created it, or with them in another order");
      if (!f.joined.insert(rank).second)
        error("the parallel file " + name + " exists");
    }
    else if (write ? f.writers || f.readers : f.ranks.empty() && f.writers)
      error("file " + name + " is already open");
    h_ = std::make_shared<Handle>(it->second, name, write);
  }
  DataSet createDataSet(const std::string& name, const DataType& t, const DataSpace& s) const {
    vp::HbIgnore h;
    using namespace vp::h5;
    if (!h_->write)
      error("data set " + name + " in a file opened for reading");
    auto& f = *h_->file;
    const int rank = vp::current_rank();
    auto it = f.sets.find(name);
    if (it == f.sets.end()) {
      auto d = std::make_shared<Dataset>();
      d->type = t.vp_type();
      d->dims = s.vp_dims();
      std::size_t n = 1;
      for (const auto x : d->dims)
        n *= x;
      d->v.assign(n, -12345.);
      d->set.assign(n, 0);
      d->writer.assign(n, -1);
      it = f.sets.emplace(name, std::move(d)).first;
      f.order.push_back(name);
    }
    auto& d = *it->second;
    if (!d.creators.insert(rank).second || (f.ranks.empty() && d.creators.size() > 1))
      error("data set " + name + " of " + h_->name + " exists");
    if (d.type != t.vp_type() || d.dims != s.vp_dims())
      error("ranks create different data sets " + name + " of " + h_->name);
    if (f.order[f.created_by[rank]++] != name)
      error("ranks create the data sets of " + h_->name + " in different orders");
    return DataSet(h_, it->second);
  }
  DataSet openDataSet(const std::string& name) const {
    vp::HbIgnore h;
    const auto it = h_->file->sets.find(name);
    if (it == h_->file->sets.end())
      vp::h5::error("data set " + name + " of " + h_->name + " does not exist");
    return DataSet(h_, it->second);
  }
  void flush(H5F_scope_t) const {}
};
}

inline herr_t H5Pset_fapl_mpio(hid_t id, MPI_Comm comm, const void*) {
  vp::HbIgnore h;
  *reinterpret_cast<std::vector<int>*>(id) = vp::mpi_comm_world_ranks(comm);
  return 0;
}
