#ifndef VERIF_CAMP_RESOURCE_HPP
#define VERIF_CAMP_RESOURCE_HPP
#include "camp/camp.hpp"
#include "camp/resource/platform.hpp"
namespace camp {
namespace resources {
class Event {
 public:
  bool check() const { return true; }
  void wait() const {}
};
class Resource {
 public:
  explicit Resource(Platform p = Platform::host) : m_platform(p) {}
  Platform get_platform() const { return m_platform; }
  void wait() {}
  Event get_event() { return Event{}; }
 private:
  Platform m_platform;
};
class Host {
 public:
  static Host get_default() { return Host{}; }
  operator Resource() const { return Resource{Platform::host}; }
};
template <typename Res>
class EventProxy {
 public:
  EventProxy(Res& r) : m_resource(&r) {}
  operator Event() { return m_resource->get_event(); }
  Event get() { return m_resource->get_event(); }
 private:
  Res* m_resource;
};
}
}
#endif
