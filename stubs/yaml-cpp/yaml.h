#pragma once
#include <istream>
#include <stdexcept>
#include <string>
#define HAVE_NEW_YAMLCPP 1
namespace YAML
{
class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class RepresentationException : public Exception { public: using Exception::Exception; };
class InvalidScalar : public RepresentationException { public: using RepresentationException::RepresentationException; };
class Node { public: const Node operator[](const char*) const { return Node(); } const Node operator[](int) const { return Node(); }
  template <class T> T as() const { return T(); } };
inline Node Load(std::istream&) { return Node(); }
}
