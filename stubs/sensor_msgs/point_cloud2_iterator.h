#pragma once
#include <cstring>
#include <stdexcept>
#include <string>
#include <sensor_msgs/PointCloud2.h>
namespace sensor_msgs
{
template <class T>
class PointCloud2ConstIterator
{
  const uint8_t* p_ = nullptr; const uint8_t* e_ = nullptr; uint32_t s_ = 0;
public:
  PointCloud2ConstIterator(const PointCloud2& m, const std::string& f)
  {
    for (const auto& fd : m.fields)
      if (fd.name == f)
      {
        p_ = m.data.data() + fd.offset; e_ = m.data.data() + m.data.size() + fd.offset; s_ = m.point_step;
        return;
      }
    throw std::runtime_error("Field " + f + " does not exist");
  }
  PointCloud2ConstIterator() {}
  const T& operator*() const { return *reinterpret_cast<const T*>(p_); }
  PointCloud2ConstIterator& operator++() { p_ += s_; return *this; }
  PointCloud2ConstIterator operator+(int i) const { PointCloud2ConstIterator r(*this); r.p_ += i * s_; return r; }
  bool operator!=(const PointCloud2ConstIterator& o) const { return p_ != o.p_; }
  bool operator==(const PointCloud2ConstIterator& o) const { return p_ == o.p_; }
  PointCloud2ConstIterator end() const { PointCloud2ConstIterator r; r.p_ = e_; r.e_ = e_; r.s_ = s_; return r; }
};
template <class T>
class PointCloud2Iterator
{
  uint8_t* p_ = nullptr; uint8_t* e_ = nullptr; uint32_t s_ = 0;
public:
  PointCloud2Iterator(PointCloud2& m, const std::string& f)
  {
    for (const auto& fd : m.fields)
      if (fd.name == f)
      {
        p_ = m.data.data() + fd.offset; e_ = m.data.data() + m.data.size() + fd.offset; s_ = m.point_step;
        return;
      }
    throw std::runtime_error("Field " + f + " does not exist");
  }
  PointCloud2Iterator() {}
  T& operator*() const { return *reinterpret_cast<T*>(p_); }
  PointCloud2Iterator& operator++() { p_ += s_; return *this; }
  bool operator!=(const PointCloud2Iterator& o) const { return p_ != o.p_; }
  PointCloud2Iterator end() const { PointCloud2Iterator r; r.p_ = e_; r.e_ = e_; r.s_ = s_; return r; }
};
}
