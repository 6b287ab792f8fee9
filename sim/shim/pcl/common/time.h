#pragma once
#include <string>
namespace pcl
{
class StopWatch
{
public:
  double getTime() { return 0; }
  double getTimeSeconds() { return 0; }
  void reset() {}
};
class ScopeTime : public StopWatch
{
public:
  ScopeTime(const char *) {}
  ScopeTime(const std::string &) {}
};
}
