// Stand-in for the seasocks web server: one thread (the one in loop()) calls all handlers and runs what was passed to
// execute(), as the real one does.  Connections are made by the test through Server::current.
#pragma once
#include <seasocks/PageHandler.h>
#include <seasocks/WebSocket.h>
#include <condition_variable>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace seasocks
{
class Logger;
class Server
{
public:
  struct Socket : WebSocket
  {
    explicit Socket(Server* s, int i) : server(s), id(i) {}
    void send(const char* data) override
    {
      if (!server->on_loop_thread() || !open)
        Server::bad_send(id, open);
      server->delivered(id, data);
    }
    void send(const uint8_t*, size_t) override {}
    void close() override {}
    std::string getRequestUri() const override { return ""; }
    Server* server;
    int id;
    bool open = true;
  };
  explicit Server(std::shared_ptr<Logger>) { current() = this; }
  ~Server()
  {
    if (current() == this)
      current() = nullptr;
  }
  static Server*& current()
  {
    static Server* s = nullptr;
    return s;
  }
  // installed by the test
  static std::function<void(int, const std::string&)>& on_send()
  {
    static std::function<void(int, const std::string&)> f;
    return f;
  }
  [[noreturn]] static void bad_send(int id, bool open);
  // a new connection is at the address of one that is gone, once everything that was passed to execute() before its end was run
  static bool& reuse()
  {
    static bool r = false;
    return r;
  }
  void delivered(int id, const char* data)
  {
    if (on_send())
      on_send()(id, data);
  }
  bool on_loop_thread() const { return loop_thread_ == std::this_thread::get_id(); }
  void setClientBufferSize(size_t) {}
  void addWebSocketHandler(const char* path, std::shared_ptr<WebSocket::Handler> h, bool = false)
  {
    ws_path = path;
    ws_handler_ = h;
  }
  void addPageHandler(std::shared_ptr<PageHandler> h) { page_handler_ = h; }
  bool startListening(int) { return true; }
  void execute(std::function<void()> f)
  {
    std::lock_guard<std::mutex> l(m_);
    queue_.push_back(std::move(f));
    pushed_++;
    cv_.notify_one();
  }
  bool loop()
  {
    loop_thread_ = std::this_thread::get_id();
    std::unique_lock<std::mutex> l(m_);
    for (;;)
    {
      cv_.wait(l, [&] { return !queue_.empty() || terminate_; });
      bool last = terminate_;
      while (!queue_.empty())
      {
        auto f = std::move(queue_.front());
        queue_.pop_front();
        l.unlock();
        f();
        l.lock();
        ran_++;
      }
      if (last)
        break;
    }
    l.unlock();
    while (!sockets_.empty())
      drop(sockets_.begin()->first);
    return true;
  }
  void terminate()
  {
    std::lock_guard<std::mutex> l(m_);
    terminate_ = true;
    cv_.notify_one();
  }
  // what clients do, to be called in the server thread: execute([&] { s->client_connect(1); })
  void client_connect(int id)
  {
    std::unique_ptr<Socket> s;
    for (auto& g : graveyard_)
      if (reuse() && g.second && g.first <= ran_)
      {
        s = std::move(g.second);
        s->id = id;
        s->open = true;
        break;
      }
    if (!s)
      s = std::make_unique<Socket>(this, id);
    auto* p = s.get();
    sockets_[id] = std::move(s);
    ws_handler_->onConnect(p);
  }
  void client_text(int id, const std::string& text)
  {
    auto it = sockets_.find(id);
    if (it != sockets_.end())
      ws_handler_->onData(it->second.get(), text.c_str());
  }
  void client_binary(int id, const std::string& data)
  {
    auto it = sockets_.find(id);
    if (it != sockets_.end())
      ws_handler_->onData(it->second.get(), reinterpret_cast<const uint8_t*>(data.data()), data.size());
  }
  void client_close(int id) { drop(id); }
  std::string ws_path;

private:
  void drop(int id)
  {
    auto it = sockets_.find(id);
    if (it == sockets_.end())
      return;
    ws_handler_->onDisconnect(it->second.get());
    it->second->open = false;
    {
      std::lock_guard<std::mutex> l(m_);
      graveyard_.emplace_back(pushed_, std::move(it->second));
    }
    sockets_.erase(it);
  }
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::function<void()>> queue_;
  bool terminate_ = false;
  std::thread::id loop_thread_;
  std::shared_ptr<WebSocket::Handler> ws_handler_;
  std::shared_ptr<PageHandler> page_handler_;
  std::map<int, std::unique_ptr<Socket>> sockets_;
  std::vector<std::pair<size_t, std::unique_ptr<Socket>>> graveyard_;  // with what had been passed to execute() at their end
  size_t pushed_ = 0, ran_ = 0;
};
}  // namespace seasocks
