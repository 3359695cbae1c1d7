#pragma once
#include <map>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;
  XmlRpcValue() {}
  XmlRpcValue(bool) {}
  XmlRpcValue(int) {}
  XmlRpcValue(double) {}
  XmlRpcValue(const std::string&) {}
  XmlRpcValue(const char*) {}
  const Type& getType() const;
  int size() const;
  bool valid() const;
  bool hasMember(const std::string&) const;
  XmlRpcValue& operator[](int);
  const XmlRpcValue& operator[](int) const;
  XmlRpcValue& operator[](const std::string&);
  XmlRpcValue& operator[](const char*);
  operator bool&();
  operator int&();
  operator double&();
  operator std::string&();
  iterator begin();
  iterator end();
  bool operator==(const XmlRpcValue&) const;
  bool operator!=(const XmlRpcValue&) const;
};
}
