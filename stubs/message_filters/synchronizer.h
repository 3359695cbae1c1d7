#pragma once
namespace message_filters { template <class P> class Synchronizer { public:
  template <class A, class B> Synchronizer(const P&, A&, B&) {}
  template <class C> void registerCallback(const C&) {} }; }
