// Stand-in for the parts of the seasocks web server that scalopus uses.
#pragma once
#include <memory>
#include <string>
namespace seasocks
{
class Request
{
public:
  virtual ~Request() = default;
  virtual std::string getRequestUri() const = 0;
};
class Response
{
public:
  std::string payload;
  bool handled = true;
  static std::shared_ptr<Response> htmlResponse(const std::string& s)
  {
    auto r = std::make_shared<Response>();
    r->payload = s;
    return r;
  }
  static std::shared_ptr<Response> unhandled()
  {
    auto r = std::make_shared<Response>();
    r->handled = false;
    return r;
  }
};
class PageHandler
{
public:
  virtual ~PageHandler() = default;
  virtual std::shared_ptr<Response> handle(const Request& request) = 0;
};
}  // namespace seasocks
