#pragma once
#include <string>
#include <ros/ros.h>
#include <diagnostic_msgs/DiagnosticStatus.h>
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::DiagnosticStatus
{
public:
  void summary(unsigned char l, const std::string& s) { level = l; message = s; }
  void summaryf(unsigned char l, const char* f, ...) { level = l; message = f; }
  void mergeSummary(unsigned char, const std::string&) {}
  template <class T> void add(const std::string&, const T&) {}
  void addf(const std::string&, const char*, ...) {}
};
class Updater
{
public:
  Updater() {}
  void setHardwareID(const std::string&) {}
  void setHardwareIDf(const char*, ...) {}
  template <class T> void add(const std::string&, T*, void (T::*)(DiagnosticStatusWrapper&)) {}
  void force_update() {}
  void update() {}
};
}
