#pragma once
#include <string>
namespace XmlRpc
{
class XmlRpcException
{
public:
  XmlRpcException(const std::string& m, int c = -1) : m_(m), c_(c) {}
  const std::string& getMessage() const { return m_; }
  int getCode() const { return c_; }
private:
  std::string m_; int c_;
};
}
