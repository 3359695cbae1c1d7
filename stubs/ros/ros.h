#pragma once
#include <cstring>
#include <iostream>
#include <sstream>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstdint>
#include <boost/array.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/shared_array.hpp>
#include <boost/make_shared.hpp>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <ros/time.h>
#include <ros/console.h>
#include <xmlrpcpp/XmlRpcValue.h>
using namespace boost::placeholders;
namespace ros
{
typedef boost::shared_ptr<void> VoidPtr;
typedef boost::shared_ptr<void const> VoidConstPtr;
typedef std::map<std::string, std::string> M_string;
class TransportHints
{
public:
  TransportHints& reliable() { return *this; }
  TransportHints& unreliable() { return *this; }
  TransportHints& tcpNoDelay(bool = true) { return *this; }
};
struct TimerEvent
{
  Time last_expected, last_real, current_expected, current_real;
};
struct SteadyTimerEvent {};
struct SingleSubscriberPublisher
{
  template <class M> void publish(const M&) const {}
  template <class M> void publish(const boost::shared_ptr<M>&) const {}
};
typedef boost::function<void(const SingleSubscriberPublisher&)> SubscriberStatusCallback;
// hook used only by demonstrations
inline std::function<void(const std::string&, const void*)>& stub_on_publish()
{
  static std::function<void(const std::string&, const void*)> f;
  return f;
}
class Publisher
{
public:
  std::string topic_;
  Publisher() {}
  explicit Publisher(const std::string& t) : topic_(t) {}
  template <class M> void publish(const M& m) const { if (stub_on_publish()) stub_on_publish()(topic_, &m); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { if (stub_on_publish()) stub_on_publish()(topic_, m.get()); }
  uint32_t getNumSubscribers() const { return 1; }
  std::string getTopic() const { return topic_; }
  void shutdown() {}
  operator void*() const { return nullptr; }
};
class Subscriber
{
public:
  void shutdown() {}
  std::string getTopic() const { return ""; }
  uint32_t getNumPublishers() const { return 1; }
  operator void*() const { return nullptr; }
};
class ServiceServer
{
public:
  void shutdown() {}
};
class ServiceClient
{
public:
  template <class S> bool call(S&) { return false; }
};
class Timer
{
public:
  void stop() {}
  void start() {}
  void setPeriod(const Duration&, bool = true) {}
  bool hasStarted() const { return true; }
  bool isValid() const { return true; }
};
typedef Timer SteadyTimer;
typedef Timer WallTimer;
class NodeHandle
{
  std::string ns_;
public:
  NodeHandle(const std::string& ns = std::string(), const M_string& = M_string()) : ns_(ns) {}
  NodeHandle(const NodeHandle& p, const std::string& ns) : ns_(p.ns_ + "/" + ns) {}
  std::string getNamespace() const { return ns_; }
  std::string getUnresolvedNamespace() const { return ns_; }
  std::string resolveName(const std::string& n, bool = true) const { return ns_ + "/" + n; }
  bool ok() const { return true; }
  void shutdown() {}
  template <class M> Publisher advertise(const std::string& t, uint32_t, bool = false) { return Publisher(ns_ + "/" + t); }
  template <class M>
  Publisher advertise(const std::string& t, uint32_t, const SubscriberStatusCallback&,
                      const SubscriberStatusCallback& = SubscriberStatusCallback(), const VoidConstPtr& = VoidConstPtr(), bool = false)
  { return Publisher(ns_ + "/" + t); }
  template <class M, class T>
  Subscriber subscribe(const std::string&, uint32_t, void (T::*)(const boost::shared_ptr<M const>&), T*, const TransportHints& = TransportHints()) { return Subscriber(); }
  template <class M, class T>
  Subscriber subscribe(const std::string&, uint32_t, void (T::*)(M), T*, const TransportHints& = TransportHints()) { return Subscriber(); }
  template <class M, class T>
  Subscriber subscribe(const std::string&, uint32_t, void (T::*)(M) const, T*, const TransportHints& = TransportHints()) { return Subscriber(); }
  template <class M>
  Subscriber subscribe(const std::string&, uint32_t, void (*)(M), const TransportHints& = TransportHints()) { return Subscriber(); }
  template <class M>
  Subscriber subscribe(const std::string&, uint32_t, const boost::function<void(const boost::shared_ptr<M const>&)>&,
                       const VoidConstPtr& = VoidConstPtr(), const TransportHints& = TransportHints()) { return Subscriber(); }
  template <class M, class C>
  Subscriber subscribe(const std::string&, uint32_t, const boost::function<void(C)>&,
                       const VoidConstPtr& = VoidConstPtr(), const TransportHints& = TransportHints()) { return Subscriber(); }
  template <class T, class Q, class S>
  ServiceServer advertiseService(const std::string&, bool (T::*)(Q&, S&), T*) { return ServiceServer(); }
  template <class S> ServiceClient serviceClient(const std::string&, bool = false) { return ServiceClient(); }
  template <class T> Timer createTimer(const Duration&, void (T::*)(const TimerEvent&), T*, bool = false, bool = true) { return Timer(); }
  template <class T> Timer createTimer(const Duration&, void (T::*)(const TimerEvent&) const, T*, bool = false, bool = true) { return Timer(); }
  Timer createTimer(const Duration&, const boost::function<void(const TimerEvent&)>&, bool = false, bool = true) { return Timer(); }
  bool hasParam(const std::string&) const { return false; }
  template <class T> bool getParam(const std::string&, T&) const { return false; }
  template <class T> bool param(const std::string&, T& v, const T& d) const { v = d; return false; }
  template <class T> T param(const std::string&, const T& d) const { return d; }
  template <class T> bool getParamCached(const std::string&, T&) const { return false; }
  template <class T> void setParam(const std::string&, const T&) const {}
  bool deleteParam(const std::string&) const { return true; }
};
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline bool ok() { return true; }
inline void spin() {}
inline void spinOnce() {}
inline void shutdown() {}
class AsyncSpinner { public: explicit AsyncSpinner(uint32_t) {} void start() {} void stop() {} };
namespace this_node { inline std::string getName() { return "/node"; } inline std::string getNamespace() { return "/"; } }
namespace serialization
{
class IStream { public: IStream(uint8_t*, uint32_t) {} };
class OStream { public: OStream(uint8_t*, uint32_t) {} };
template <class M> void deserialize(IStream&, M&) {}
template <class M> void serialize(OStream&, const M&) {}
template <class M> uint32_t serializationLength(const M&) { return 0; }
}
namespace names { inline std::string append(const std::string& a, const std::string& b) { return a + "/" + b; } }
}  // namespace ros
