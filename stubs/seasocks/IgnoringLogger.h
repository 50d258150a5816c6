#pragma once
namespace seasocks
{
class Logger
{
public:
  enum class Level { Debug, Access, Info, Warning, Error, Severe };
  virtual ~Logger() = default;
};
class IgnoringLogger : public Logger
{
};
}  // namespace seasocks
