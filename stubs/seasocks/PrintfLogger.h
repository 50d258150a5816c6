#pragma once
#include <seasocks/IgnoringLogger.h>
namespace seasocks
{
class PrintfLogger : public Logger
{
public:
  explicit PrintfLogger(Level) {}
};
}  // namespace seasocks
