From edcb79af063bd35c3ea88190d3661b7bcd626425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 01/66] fix: unix transport shares running_ and client_fd_
 between threads without synchronisation

---
 scalopus_transport/src/transport_unix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index 04fd730..a4c973a 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -31,6 +31,7 @@
 #define SCALOPUS_TRANSPORT_TRANSPORT_UNIX_INTERNAL_H
 
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <set>
@@ -86,10 +87,10 @@ private:
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
   int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  std::atomic<int> client_fd_{ 0 };  //!< File descriptor from connecting to a server.
   std::size_t client_pid_{ 0 };
 
-  bool running_{ false };  //!< Boolean to quit the worker thread.
+  std::atomic<bool> running_{ false };  //!< Boolean to quit the worker thread.
 
   std::set<int> connections_;  //!< Open connections, also holds server_fd_ and client_fd_.
 
-- 
2.43.0


From d52294de9c3a85b8810c5b4b1d066a43251ac519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 02/66] fix: unix transport loses a response that arrives
 before the request was registered

---
 scalopus_transport/src/transport_unix.cpp | 25 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0b3564c..5d1e633 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -146,18 +146,29 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   auto promise = std::promise<Data>();
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
+  // Store the promise in the map before sending, the response may arrive before send returns.
+  {
+    std::lock_guard<std::mutex> lock(request_lock_);
+    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
+  }
+
+  bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    if (!protocol::send(client_fd_, outgoing_msg))
+    sent = protocol::send(client_fd_, outgoing_msg);
+  }
+
+  if (!sent)
+  {
+    // Send failed, the request is not pending, let the future hold the error.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    auto it = ongoing_requests_.find({ remote_endpoint_name, request_id });
+    if (it != ongoing_requests_.end())
     {
-      promise.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
-      return response;
+      it->second.first.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
+      ongoing_requests_.erase(it);
     }
   }
-
-  // Send succeeded, store the promise in the map, its result should be pending.
-  std::lock_guard<std::mutex> lock(request_lock_);
-  ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
   return response;
 }
 
-- 
2.43.0


From 4579b649c30c93b257b0d13c8a3d5af27c90fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:46 +0000
Subject: [PATCH 03/66] fix: protocol::readData reports success for short reads
 and fails on empty or interrupted ones

---
 scalopus_transport/src/protocol.cpp | 35 +++++++++--------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 0ecaeb0..e4715b7 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -34,6 +34,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <array>
+#include <cerrno>
 #include <cstring>
 #include <iostream>
 
@@ -49,42 +50,26 @@ bool readData(int fd, size_t length, Data& incoming)
   incoming.resize(0);
   incoming.reserve(chunk_size);
   size_t received{ 0 };
-  while (true)
+  while (received < length)
   {
     ssize_t chunk_received = ::read(fd, buf.data(), std::min(length - received, chunk_size));
     if (chunk_received == -1)
     {
+      if (errno == EINTR)
+      {
+        continue;  // interrupted before anything was read, try again.
+      }
       return false;  // this should not happen as it indicates a broken transmission or broken file descriptor.
     }
+    if (chunk_received == 0)
+    {
+      return false;  // end of file before all data was received.
+    }
 
     // Add the data to incoming.
     incoming.resize(received + static_cast<size_t>(chunk_received));
     std::memcpy(&incoming[received], buf.data(), static_cast<size_t>(chunk_received));
     received += static_cast<size_t>(chunk_received);
-
-    // If we have received all data, continue.
-    if (received == length)
-    {
-      break;
-    }
-
-    if (chunk_received == chunk_size)
-    {
-      // read the next chunk.
-      continue;
-    }
-
-    if (chunk_received == -1)
-    {
-      // an error occured.
-      return false;
-    }
-    else if (chunk_received == 0)
-    {
-      // end of file.
-      return false;
-    }
-    break;
   }
   return true;
 }
-- 
2.43.0


From beab7780a9e10b44a57700a9d27ca983c201432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:46 +0000
Subject: [PATCH 04/66] fix: protocol::send drops the rest of a message after a
 partial or interrupted write

---
 scalopus_transport/src/protocol.cpp | 36 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index e4715b7..464d6dd 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -137,6 +137,28 @@ bool receive(int fd, Msg& incoming)
   return false;
 }
 
+/**
+ * @brief Write all data to the socket, also if it takes multiple calls or gets interrupted.
+ */
+static bool sendData(int fd, const void* data, size_t length)
+{
+  size_t sent{ 0 };
+  while (sent < length)
+  {
+    ssize_t chunk_sent = ::send(fd, static_cast<const char*>(data) + sent, length - sent, MSG_NOSIGNAL);
+    if (chunk_sent == -1)
+    {
+      if (errno == EINTR)
+      {
+        continue;  // interrupted before anything was written, try again.
+      }
+      return false;
+    }
+    sent += static_cast<size_t>(chunk_sent);
+  }
+  return true;
+}
+
 bool send(int fd, const Msg& outgoing)
 {
   if (fd == 0)
@@ -147,35 +169,31 @@ bool send(int fd, const Msg& outgoing)
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
   // Send request id.
-  if (::send(fd, &outgoing.request_id, sizeof(outgoing.request_id), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(outgoing.request_id)))
+  if (!sendData(fd, &outgoing.request_id, sizeof(outgoing.request_id)))
   {
     return false;
   }
 
   // Send endpoint length
-  if (::send(fd, &length_endpoint_name, sizeof(length_endpoint_name), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(length_endpoint_name)))
+  if (!sendData(fd, &length_endpoint_name, sizeof(length_endpoint_name)))
   {
     return false;
   }
 
   // Send endpoint name.
-  if (::send(fd, outgoing.endpoint.data(), length_endpoint_name, MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(length_endpoint_name))
+  if (!sendData(fd, outgoing.endpoint.data(), length_endpoint_name))
   {
     return false;
   }
 
   // Send data length
-  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))
+  if (!sendData(fd, &length_data, sizeof(length_data)))
   {
     return false;
   }
 
   // Send data
-  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(outgoing.data.size()))
+  if (!sendData(fd, outgoing.data.data(), outgoing.data.size()))
   {
     return false;
   }
-- 
2.43.0


From 91110f0c7a0515ffcf915071b190032ff214138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:16 +0000
Subject: [PATCH 05/66] fix: unix transport client processes the remains of a
 message it failed to receive

---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 5d1e633..4b0fac8 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -277,6 +277,7 @@ void TransportUnix::work()
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
         client_fd_ = 0;
+        break;
       }
 
       // lock the requests map.
-- 
2.43.0


From 6a2b59cab365b46fdc20d19f494f6dad0b7d0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:16 +0000
Subject: [PATCH 06/66] fix: unix transport worker blocks in accept or read
 after an interrupted select

---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 4b0fac8..09eab1c 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -253,6 +253,7 @@ void TransportUnix::work()
     if (select_result == -1)
     {
       logger_("[TransportUnix]: Failure occured on select.");
+      continue;  // contents of the sets are undefined.
     }
 
     // Handle server stuff, accept new connection:
-- 
2.43.0


From 7d2c3110dc3330863ef72c816abf5dcd24390bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:16 +0000
Subject: [PATCH 07/66] fix: failing to serve or connect over unix sockets
 terminates the process and leaks the socket

---
 scalopus_transport/src/transport_unix.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 09eab1c..3a6bb18 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -54,6 +54,7 @@ bool TransportUnix::serve()
   if (server_fd_ == -1)
   {
     logger_("[TransportUnix] Could not create socket.");
+    server_fd_ = 0;
     return false;
   }
 
@@ -74,6 +75,8 @@ bool TransportUnix::serve()
   if (bind(server_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
     logger_("[TransportUnix] Could not bind socket.");
+    ::close(server_fd_);
+    server_fd_ = 0;
     return false;
   }
 
@@ -81,6 +84,8 @@ bool TransportUnix::serve()
   if (listen(server_fd_, 5) == -1)
   {
     logger_("[TransportUnix] Could not start listening for connections.");
+    ::close(server_fd_);
+    server_fd_ = 0;
     return false;
   }
   else
@@ -104,6 +109,7 @@ bool TransportUnix::connect(std::size_t pid)
   if (client_fd_ == -1)
   {
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
+    client_fd_ = 0;
     return false;
   }
 
@@ -121,6 +127,8 @@ bool TransportUnix::connect(std::size_t pid)
   if (::connect(client_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
     logger_("[TransportUnix] Could not connect socket.");
+    ::close(client_fd_);
+    client_fd_ = 0;
     return false;
   }
   else
@@ -216,13 +224,16 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  thread_.join();
+  if (thread_.joinable())
+  {
+    thread_.join();
+  }
 
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-    ::close(connection);
     ::shutdown(connection, 2);
+    ::close(connection);
   }
 }
 
@@ -344,16 +355,17 @@ void TransportUnix::work()
         }
         else
         {
-          ::close(connection);
           ::shutdown(connection, 2);
+          ::close(connection);
           connections_.erase(connection);
+          continue;
         }
       }
 
       if (FD_ISSET(connection, &except_fds))
       {
-        ::close(connection);
         ::shutdown(connection, 2);
+        ::close(connection);
         connections_.erase(connection);
       }
     }
-- 
2.43.0


From 0e4250fe58011cd6efea78e16ac5e76a43474e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:16 +0000
Subject: [PATCH 08/66] fix: unix transport looks up endpoints without lock and
 calls them with locks held

---
 scalopus_transport/src/transport_unix.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 3a6bb18..41cb449 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -293,7 +293,7 @@ void TransportUnix::work()
       }
 
       // lock the requests map.
-      std::lock_guard<std::mutex> lock(request_lock_);
+      std::unique_lock<std::mutex> lock(request_lock_);
       // Try to find a promise for the message we just received.
       auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });
       if (request_it != ongoing_requests_.end())
@@ -307,16 +307,17 @@ void TransportUnix::work()
       }
       else
       {
-        // no active request for this outstanding. Hand it off to the endpoint with this name.
-        std::lock_guard<std::mutex> elock(endpoint_mutex_);
-        const auto it = endpoints_.find(incoming.endpoint);
-        if (it != endpoints_.end())
+        // no active request for this outstanding. Hand it off to the endpoint with this name. No locks may be held
+        // while doing so, the endpoint is allowed to use the transport.
+        lock.unlock();
+        const auto endpoint = getEndpoint(incoming.endpoint);
+        if (endpoint != nullptr)
         {
           protocol::Msg response;
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (it->second->unsolicited(*this, incoming.data, response.data))
+          if (endpoint->unsolicited(*this, incoming.data, response.data))
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
@@ -419,12 +420,12 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   response.endpoint = request.endpoint;
   response.request_id = request.request_id;
   // Check if we have this endpoint.
-  const auto it = endpoints_.find(request.endpoint);
-  if (it != endpoints_.end())
+  const auto endpoint = getEndpoint(request.endpoint);
+  if (endpoint != nullptr)
   {
     Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return it->second->handle(*this, request.data, response.data);
+    return endpoint->handle(*this, request.data, response.data);
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 80cb3946441f746675954a778a3b4ddbeaedf7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:16 +0000
Subject: [PATCH 09/66] fix: queued broadcasts are sent in reverse order

---
 scalopus_interface/src/transport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index c18845c..9f5edbb 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -45,8 +45,8 @@ void Transport::broadcast(const std::string& remote_endpoint_name, const Data& o
 std::pair<std::string, Data> Transport::popBroadcast()
 {
   std::lock_guard<std::mutex> lock(broadcast_message_mutex_);
-  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.back());
-  broadcast_messages_.pop_back();
+  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());
+  broadcast_messages_.erase(broadcast_messages_.begin());
   return tmp;
 }
 
-- 
2.43.0


From 67c447484793f06e75578dd0bec3dbe258c65653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:21 +0000
Subject: [PATCH 10/66] fix: names longer than the protocol's length field are
 delivered to another endpoint

---
 scalopus_transport/src/protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 464d6dd..038ddd6 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -37,6 +37,7 @@
 #include <cerrno>
 #include <cstring>
 #include <iostream>
+#include <limits>
 
 namespace scalopus
 {
@@ -165,6 +166,11 @@ bool send(int fd, const Msg& outgoing)
   {
     return false;
   }
+  if (outgoing.endpoint.size() > std::numeric_limits<uint16_t>::max() ||
+      outgoing.data.size() > std::numeric_limits<uint32_t>::max())
+  {
+    return false;  // This message cannot be represented by the protocol.
+  }
   uint16_t length_endpoint_name = static_cast<uint16_t>(outgoing.endpoint.size());
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
-- 
2.43.0


From b19e2a00ddf673580f89eca71e5da25f6441b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:45 +0000
Subject: [PATCH 11/66] fix: unix discovery lists a server once per connection
 and takes foreign sockets for servers

---
 scalopus_transport/src/transport_unix.cpp | 30 +++++++++++------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 41cb449..5dc2484 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -195,25 +195,23 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
   std::string line;
   while (std::getline(infile, line))
   {
-    if (line.size() < suffix.size())
+    std::istringstream fields(line);
+    std::string num, ref_count, protocol, flags, type, state, inode, path;
+    fields >> num >> ref_count >> protocol >> flags >> type >> state >> inode;
+    if (!fields || (fields.get() != ' ') || !std::getline(fields, path) || (path.front() != '@'))
     {
-      continue;  // definitely is not a line we are interested in.
+      continue;  // no path, or not in the abstract namespace.
     }
-    // std::basic_string::ends_with is c++20 :|
-    if (line.substr(line.size() - suffix.size()) == suffix)
+    // Connections accepted by the server carry its path too, only the listening stream socket has this flag (SO_ACCEPTCON).
+    if ((flags != "00010000") || (type != "0001"))
     {
-      // We got a hit, extract the process id.
-      const auto space_before_path = line.rfind(" ");
-      const auto path = line.substr(space_before_path + 2);  // + 2 for space and @ symbol.
-      const auto space_before_inode = line.rfind(" ", space_before_path - 1);
-      const auto inode_str = line.substr(space_before_inode, space_before_path - space_before_inode);
-      if (std::atoi(inode_str.c_str()) == 0)
-      {
-        // clients to the socket get this 0 inode address...
-        continue;
-      }
-      char* tmp;
-      res.emplace_back(std::strtoul(path.substr(0, path.size() - suffix.size()).c_str(), &tmp, 10));
+      continue;
+    }
+    // We only connect to exactly this path, so anything that is not a plain process id followed by the suffix isn't ours.
+    const auto pid = std::strtoul(path.c_str() + 1, nullptr, 10);
+    if ((pid != 0) && (path == "@" + std::to_string(pid) + suffix))
+    {
+      res.emplace_back(pid);
     }
   }
 
-- 
2.43.0


From 444fc929973576990b2289fcdf2415e881818820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:20 +0000
Subject: [PATCH 12/66] fix: loopback transport crashes on missing endpoints,
 deadlocks on nested use and joins its own worker

---
 scalopus_transport/src/transport_loopback.cpp | 78 +++++++++++--------
 scalopus_transport/src/transport_loopback.h   | 20 ++++-
 2 files changed, 64 insertions(+), 34 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 416edc5..b57810e 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -32,10 +32,8 @@
 
 namespace scalopus
 {
-TransportLoopback::TransportLoopback()
+TransportLoopback::TransportLoopback() : TransportLoopback{ nullptr }
 {
-  running_ = true;
-  thread_ = std::thread([&]() { work(); });
 }
 
 TransportLoopback::~TransportLoopback()
@@ -44,14 +42,16 @@ TransportLoopback::~TransportLoopback()
   thread_.join();
 }
 
-TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
+TransportLoopback::TransportLoopback(Ptr server) : server_{ server }, inbox_{ std::make_shared<Inbox>() }
 {
-  server_ = server;
+  running_ = true;
+  thread_ = std::thread([&]() { work(); });
 }
 
-void TransportLoopback::addClient(Transport::WeakPtr client)
+void TransportLoopback::addClient(const Ptr& client)
 {
-  clients_.push_back(client);
+  std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
+  clients_.push_back(client->inbox_);
 }
 
 bool TransportLoopback::isConnected() const
@@ -84,8 +84,12 @@ void TransportLoopback::work()
   {
     // First, server any requests that are pending.
     {
-      std::lock_guard<decltype(request_lock_)> lock(request_lock_);
-      for (auto& req : ongoing_requests_)
+      std::vector<PendingRequest> requests;
+      {
+        std::lock_guard<decltype(request_lock_)> lock(request_lock_);
+        requests.swap(ongoing_requests_);
+      }
+      for (auto& req : requests)
       {
         const auto& remote_endpoint_name = std::get<0>(req);
         const auto& outgoing = std::get<1>(req);
@@ -97,13 +101,14 @@ void TransportLoopback::work()
         }
 
         // get the appropriate endpoint from the server.
-        auto endpoint = server_->getEndpoint(remote_endpoint_name);
+        auto endpoint = server_ != nullptr ? server_->getEndpoint(remote_endpoint_name) : nullptr;
 
         // If the endpoint doesn't exist on the remote end, throw
         if (endpoint == nullptr)
         {
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+          continue;
         }
 
         Data resp;
@@ -113,35 +118,46 @@ void TransportLoopback::work()
           promise.set_value(resp);
         }
       }
-      ongoing_requests_.clear();  // We processed all requests, we can clear them.
     }
 
-    // Secondly, we server all the broadcasts
+    // Secondly, we hand all the broadcasts to the clients.
     {
       while (haveBroadcast())
       {
         auto broadcast = Transport::popBroadcast();
-        const auto& remote_endpoint_name = broadcast.first;
-        const auto& outgoing = broadcast.second;
-        for (auto weak_client : clients_)
+        std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
+        for (const auto& weak_inbox : clients_)
+        {
+          auto inbox = weak_inbox.lock();
+          if (inbox != nullptr)
+          {
+            std::lock_guard<std::mutex> inbox_lock(inbox->lock);
+            inbox->messages.push_back(broadcast);
+          }
+        }
+      }
+    }
+
+    // Thirdly, as a client we handle the broadcasts we got.
+    {
+      decltype(inbox_->messages) messages;
+      {
+        std::lock_guard<std::mutex> lock(inbox_->lock);
+        messages.swap(inbox_->messages);
+      }
+      for (const auto& message : messages)
+      {
+        const auto& endpoint_name = message.first;
+        auto endpoint = getEndpoint(endpoint_name);
+        Data resp;
+        if ((endpoint != nullptr) && endpoint->unsolicited(*this, message.second, resp))
         {
-          auto client = weak_client.lock();
-          if (client != nullptr)
+          Data resp2;
+          auto server_endpoint = server_->getEndpoint(endpoint_name);
+          if ((server_endpoint != nullptr) && server_endpoint->handle(*server_, resp, resp2))
           {
-            auto endpoint = client->getEndpoint(remote_endpoint_name);
-            if (endpoint != nullptr)
-            {
-              Data resp;
-              if (endpoint->unsolicited(*client, outgoing, resp))
-              {
-                Data resp2;
-                if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
-                {
-                  // We stop here... This is slightly different than a real transport... but works for now.
-                  throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
-                }
-              }
-            }
+            // We stop here... This is slightly different than a real transport... but works for now.
+            logger_("[TransportLoopback] does not handle responses on unsolicited data.");
           }
         }
       }
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index bed74be..cc5d4a7 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -32,9 +32,11 @@
 
 #include <scalopus_interface/transport_factory.h>
 #include <scalopus_transport/transport_loopback.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <set>
 #include <thread>
 #include <utility>
@@ -67,7 +69,7 @@ public:
   PendingResponse request(const std::string& remote_endpoint_name, const Data& outgoing);
   std::size_t pendingRequests() const;
 
-  void addClient(Transport::WeakPtr client);
+  void addClient(const Ptr& client);
   bool isConnected() const;
 
   Destination::Ptr getAddress();
@@ -80,14 +82,26 @@ private:
 
   Ptr server_;  //!< If populated this is the server the client is connected to.
 
-  std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
+  /**
+   * @brief Broadcasts on their way to a client. Shared with the server, such that the server's worker never owns a client
+   *        (and through that itself).
+   */
+  struct Inbox
+  {
+    std::mutex lock;                                     //!< Guards messages.
+    std::vector<std::pair<std::string, Data>> messages;  //!< Broadcasts not yet handled by the client.
+  };
+  const std::shared_ptr<Inbox> inbox_;  //!< Broadcasts for this client.
+
+  std::mutex clients_lock_;                    //!< Lock to guard clients_.
+  std::vector<std::weak_ptr<Inbox>> clients_;  //!< Inboxes of the clients connected to the server.
 
   /**
    * @brief Function in which we server the ongoing requests and broadcasts.
    */
   void work();
 
-  bool running_{ true };  //!< Bool to stop the worker loop.
+  std::atomic_bool running_{ true };  //!< Bool to stop the worker loop.
   std::thread thread_;    //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
-- 
2.43.0


From 63a935c9be8eae5b536bf9257d9de77197c2a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:11 +0000
Subject: [PATCH 13/66] fix: setProcessName races with requests for the process
 info

---
 .../include/scalopus_general/endpoint_process_info.h      | 4 +++-
 scalopus_general/src/endpoint_process_info.cpp            | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 6662112..a2c8898 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport.h>
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace scalopus
@@ -80,7 +81,8 @@ public:
   bool handle(Transport& server, const Data& request, Data& response);
 
 private:
-  ProcessInfo info_;  //!< The process info.
+  ProcessInfo info_;       //!< The process info.
+  std::mutex info_mutex_;  //!< Requests are handled by the transport's thread, guards info_.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 53eb6fc..bb68e06 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -54,6 +54,7 @@ EndpointProcessInfo::EndpointProcessInfo()
 
 void EndpointProcessInfo::setProcessName(const std::string& process_name)
 {
+  std::lock_guard<std::mutex> lock(info_mutex_);
   info_.name = process_name;
 }
 
@@ -65,8 +66,11 @@ bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, D
   if (req["cmd"].get<std::string>() == "info")
   {
     json jdata = json::object();
-    jdata["pid"] = info_.pid;
-    jdata["name"] = info_.name;
+    {
+      std::lock_guard<std::mutex> lock(info_mutex_);
+      jdata["pid"] = info_.pid;
+      jdata["name"] = info_.name;
+    }
     jdata["threads"] = scalopus::ThreadNameTracker::getInstance().getMap();
     response = json::to_bson(jdata);
     return true;
-- 
2.43.0


From 17d2f6fe5a87e8fba561dc500cae76b179ef3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:11 +0000
Subject: [PATCH 14/66] fix: processes that do not answer get a fabricated
 process id or lose the names of all others

---
 .../scalopus_general/endpoint_process_info.h       |  2 +-
 scalopus_general/src/general_provider.cpp          | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index a2c8898..d8deb1c 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -51,7 +51,7 @@ public:
   {
     std::string name;                              //!< Name of this process.
     std::map<unsigned long, std::string> threads;  //!< Names of the threads in this process.
-    int pid;                                       //!< Process id.
+    int pid{ 0 };                                  //!< Process id, zero if the process did not answer.
   };
 
   /**
diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index 358af25..7d0efc2 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -61,8 +61,18 @@ void GeneralProvider::updateMapping()
     auto endpoint_general = EndpointManager::findEndpoint<scalopus::EndpointProcessInfo>(transport_endpoints.second);
     if (endpoint_general != nullptr)
     {
-      const auto process_mapping = endpoint_general->processInfo();
-      mapping_[process_mapping.pid] = process_mapping;
+      try
+      {
+        const auto process_mapping = endpoint_general->processInfo();
+        if (process_mapping.pid != 0)
+        {
+          mapping_[process_mapping.pid] = process_mapping;
+        }
+      }
+      catch (const std::exception&)
+      {
+        // This process vanished or answered with garbage, the others still have their names.
+      }
     }
   }
 }
-- 
2.43.0


From fd963af82dba01698ab6207a2b9fae00e5ae20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 15/66] fix: one server that refuses, vanishes or answers
 garbage crashes the endpoint manager or stays without endpoints

---
 .../scalopus_general/endpoint_manager_poll.h  | 11 +++--
 .../src/endpoint_manager_poll.cpp             | 44 ++++++++++++++-----
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index edf10f0..7560b36 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -33,10 +33,13 @@
 #include <scalopus_interface/endpoint_manager.h>
 #include <scalopus_interface/trace_event_provider.h>
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <string>
+#include <thread>
 #include <vector>
 
 namespace scalopus
@@ -109,10 +112,10 @@ private:
 
   TransportFactory::Ptr factory_;  //!< The transport factory to use to discover and create connections.
 
-  bool is_polling_{ false };     //!< Should the worker thread continue polling?
-  double poll_interval_{ 1.0 };  //!< The poll interval in seconds.
-  std::thread thread_;           //!< Thread in which the polling takes place.
-  void work();                   //!< Function in which the work the poller does takes place.
+  std::atomic_bool is_polling_{ false };  //!< Should the worker thread continue polling?
+  double poll_interval_{ 1.0 };           //!< The poll interval in seconds.
+  std::thread thread_;                    //!< Thread in which the polling takes place.
+  void work();                            //!< Function in which the work the poller does takes place.
 };
 }  // namespace scalopus
 #endif  // SCALOPUS_CATAPULT_ENDPOINT_MANANGER_POLL_H
diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 465f890..6404c8a 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -71,31 +71,50 @@ void EndpointManagerPoll::manage()
   const auto providers = factory_->discover();
   for (const auto& destination : providers)
   {
-    connect(destination);
+    try
+    {
+      connect(destination);
+    }
+    catch (const std::exception& e)
+    {
+      // This server vanished or misbehaves, that should not affect the others. Next round we try it again.
+      log("[scalopus] Failure with " + std::string(*destination) + ": " + e.what());
+    }
   }
 }
 
 void EndpointManagerPoll::connect(const Destination::Ptr destination)
 {
-  if (transports_.find(destination->hash_code()) != transports_.end())
+  Transport::Ptr transport;
+  const auto existing = transports_.find(destination->hash_code());
+  if (existing != transports_.end())
   {
-    return;  // already have a connection to this transport, ignore it.
+    transport = existing->second;
+    if (!transport_endpoints_[transport].empty())
+    {
+      return;  // already have a connection to this transport, ignore it.
+    }
+    // The server didn't tell us its endpoints when we connected, ask again.
   }
-  log("[scalopus] Creating transport to: " + std::string(*destination));
-  // Attempt to make a transport to this server.
-  auto transport = factory_->connect(destination);
-  if (!transport->isConnected())
+  else
   {
-    log("[scalopus] Client failed to connect to " + std::string(*destination));
-    return;
+    log("[scalopus] Creating transport to: " + std::string(*destination));
+    // Attempt to make a transport to this server.
+    transport = factory_->connect(destination);
+    if ((transport == nullptr) || !transport->isConnected())
+    {
+      log("[scalopus] Client failed to connect to " + std::string(*destination));
+      return;
+    }
+    transports_[destination->hash_code()] = transport;
+    transport_endpoints_[transport] = {};
   }
-  transports_[destination->hash_code()] = transport;
-  transport_endpoints_[transport] = {};
 
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
   const auto supported = introspect_client->supported();
+  EndpointMap new_endpoints;
   for (const auto& supported_endpoint : supported)
   {
     const auto it = endpoint_factories_.find(supported_endpoint);
@@ -105,7 +124,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
       auto new_endpoint = endpoint_factories_[supported_endpoint](transport);
       if (new_endpoint != nullptr)
       {
-        transport_endpoints_[transport][supported_endpoint] = new_endpoint;
+        new_endpoints[supported_endpoint] = new_endpoint;
         // Also register the new endpoint with the transport in case it needs to listen to broadcast messages.
         transport->addEndpoint(new_endpoint);
       }
@@ -119,6 +138,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
       log("[scalopus] remote supports endpoint we don't support: " + supported_endpoint);
     }
   }
+  transport_endpoints_[transport] = std::move(new_endpoints);
 }
 
 void EndpointManagerPoll::startPolling(const double interval)
-- 
2.43.0


From 603410f4b7106250937a530f4971e63a4e10bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 16/66] fix: threads race to register the name of a tracepoint
 and emit its id before the name is known

---
 .../include/scalopus_tracing/internal/trace_macro.h    | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
index 8d92cf3..ab9fe7c 100644
--- a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
+++ b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
@@ -43,14 +43,10 @@
 #define SCALOPUS_TRACKED_TRACE_ID_STRING(s) (CRC32_STR(__FILE__) + CRC32_STR(s))
 
 // Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using a
-// static boolean.
+// static boolean. Its initialisation is thread safe, so the name is known before any thread gets past this.
 #define TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, have_done_setup_varname)                                         \
-  static bool have_done_setup_varname = false;                                                                         \
-  if (!have_done_setup_varname)                                                                                        \
-  {                                                                                                                    \
-    have_done_setup_varname = true;                                                                                    \
-    scalopus::StaticStringTracker::getInstance().insert(id, name);                                                     \
-  }
+  static const bool have_done_setup_varname = (scalopus::StaticStringTracker::getInstance().insert(id, name), true);   \
+  static_cast<void>(have_done_setup_varname);
 
 // Macro to create a tracked RAII tracepoint. The tracepoint itself will store only the ID, but the singleton trace
 // tracker stores the ID -> name relation provided.
-- 
2.43.0


From acd42b28f5ce6c71e26386bb659a23eee8a51ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 17/66] fix: series of TRACE_COUNT has an empty name instead of
 'count'

---
 scalopus_tracing/src/scope_tracing_provider.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 2bee79b..d432037 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -100,7 +100,7 @@ std::pair<std::string, std::string> ScopeTracingProvider::splitCounterSeriesName
 {
   std::pair<std::string, std::string> res;
   auto index = trace_string.find("/");
-  if ((index != std::string::npos) && (index + 1 <= trace_string.size()))
+  if (index != std::string::npos)
   {
     res.first = trace_string.substr(0, index);
     res.second = std::string{ std::next(trace_string.begin(), static_cast<long>(index + 1)), trace_string.end() };
@@ -108,7 +108,10 @@ std::pair<std::string, std::string> ScopeTracingProvider::splitCounterSeriesName
   else
   {
     res.first = trace_string;
-    res.second = "count";
+  }
+  if (res.second.empty())
+  {
+    res.second = "count";  // counter with just one series.
   }
   return res;
 }
-- 
2.43.0


From a3d96c6146221fd734e465ac1478731d0ab1cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:02 +0000
Subject: [PATCH 18/66] fix: one process that fails to provide its trace
 mapping prevents resolving the names of all others

---
 scalopus_tracing/src/scope_tracing_provider.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index d432037..a3bf18a 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -64,10 +64,17 @@ void ScopeTracingProvider::updateMapping()
     if (endpoint_scope_tracing != nullptr)
     {
       // We found the correct endpoint, retrieve its mappings.
-      const auto process_mapping = endpoint_scope_tracing->mapping();
+      try
+      {
+        const auto process_mapping = endpoint_scope_tracing->mapping();
 
-      // Insert the mappings into the accumulated map.
-      mapping.insert(process_mapping.begin(), process_mapping.end());
+        // Insert the mappings into the accumulated map.
+        mapping.insert(process_mapping.begin(), process_mapping.end());
+      }
+      catch (const std::exception&)
+      {
+        // This process vanished or answered garbage, that should not prevent obtaining the names of the others.
+      }
     }
   }
 
-- 
2.43.0


From 04df5ffbefea62dc423e6dd74a0b948b6617a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:54 +0000
Subject: [PATCH 19/66] fix: a CTFEvent without a parsable timestamp has time
 zero instead of an indeterminate one

---
 scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
index 64d7e33..b5bee39 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
@@ -94,7 +94,7 @@ public:
 private:
   std::string line_;  //! Original line from babeltrace.
 
-  double timestamp_;               //! Timestamp of this event.
+  double timestamp_{ 0.0 };        //! Timestamp of this event.
   std::string hostname_;           //! Hostname this event originated from.
   std::string tracepoint_domain_;  //! Tracepoint domain of this event.
   std::string tracepoint_name_;    //! Tracepoint name of this event.
-- 
2.43.0


From a964a770bb108fd7eb8bdd9bcc769c176e34267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:54 +0000
Subject: [PATCH 20/66] fix: numbers outside the representable range in a trace
 line do not make CTFEvent throw

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index a7633f5..70e7cd7 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -29,6 +29,8 @@
 */
 #include "scalopus_tracing/ctfevent.h"
 
+#include <stdexcept>
+
 namespace scalopus
 {
 CTFEvent::CTFEvent(std::string line)
@@ -59,7 +61,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     timestamp_ = std::stod(timestamp_str);
   }
-  catch (const std::invalid_argument&)
+  catch (const std::logic_error&)  // std::invalid_argument or std::out_of_range.
   {
     return;
   }
@@ -163,7 +165,7 @@ CTFEvent::CTFEvent(std::string line)
         // if value is a string, this will fail, we need to catch that.
         res[key] = std::stoull(value);
       }
-      catch (const std::invalid_argument&)
+      catch (const std::logic_error&)  // std::invalid_argument or std::out_of_range.
       {
       }
     }
-- 
2.43.0


From 9e040e3cd80fd245050b4d6785b320bf64afea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:22 +0000
Subject: [PATCH 21/66] fix: text without an assignment in a trace line context
 is not turned into a CTFEvent field

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index 70e7cd7..aa762ab 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -158,6 +158,10 @@ CTFEvent::CTFEvent(std::string line)
 
       // now, we have to parse the kvpair.
       size_t kvsplit_point = kvpair.find(" = ");
+      if (kvsplit_point == std::string::npos)
+      {
+        continue;  // not a key value pair.
+      }
       std::string key = kvpair.substr(0, kvsplit_point);
       std::string value = kvpair.substr(kvsplit_point + 3);  // 3 is length of " = "
       try
-- 
2.43.0


From 7b0653aee2718bc126026eb1309d23a3f0ab8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:22 +0000
Subject: [PATCH 22/66] fix: trace line contexts with unusual spacing around
 the braces are parsed within their braces

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index aa762ab..4b29b2a 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -96,6 +96,13 @@ CTFEvent::CTFEvent(std::string line)
   tracepoint_domain_ = trace_point.substr(0, split_point);
   tracepoint_name_ = trace_point.substr(split_point + 1, trace_point.size() - split_point);
 
+  // Make a lambda that obtains the text between a pair of curly braces, without the surrounding spaces.
+  auto betweenBraces = [&line](size_t open, size_t close) -> std::string {
+    const size_t first = line.find_first_not_of(' ', open + 1);
+    const size_t last = line.find_last_not_of(' ', close - 1);
+    return first < close ? line.substr(first, last + 1 - first) : std::string{};
+  };
+
   // Obtain the stream context between the curly braces.
   start_pos = end_pos;
   start_pos = line.find("{", start_pos);
@@ -104,7 +111,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string stream_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string stream_context = betweenBraces(start_pos, end_pos);
 
   // Obtain the event context between the curly braces.
   start_pos = end_pos;
@@ -114,7 +121,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string event_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string event_context = betweenBraces(start_pos, end_pos);
 
   // Obtain the trace data between the curly braces.
   start_pos = end_pos;
@@ -124,7 +131,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string trace_data = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string trace_data = betweenBraces(start_pos, end_pos);
 
   // Make a lambda that can convert the syntax between the curly braces (comma separated values) into a map of integers.
   auto processContext = [](std::string csv) -> std::map<std::string, unsigned long long int> {
-- 
2.43.0


From 3720066e82cac9b17ee85ad288da22d87838e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:26 +0000
Subject: [PATCH 23/66] fix: disabling a babeltrace callback waits for the
 event being delivered, LttngSource no longer races with the parser

---
 .../scalopus_tracing/babeltrace_parser.h      | 19 +++++++++++++++++++
 .../src/lttng/babeltrace_parser.cpp           |  6 +-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index e9ee4ec..f964aee 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -54,12 +54,31 @@ public:
   {
     bool active{ true };
     std::function<void(const CTFEvent& event)> callback;
+    std::mutex mutex;  //! Mutex for the members, held while the callback executes.
 
+    /**
+     * @brief Disable this callback, once this returns the callback is not running and will not be called anymore.
+     */
     void disable()
     {
+      std::lock_guard<std::mutex> lock(mutex);
       active = false;
       callback = nullptr;
     }
+
+    /**
+     * @brief Call the callback if this session is active.
+     * @return False if this session is no longer active.
+     */
+    bool call(const CTFEvent& event)
+    {
+      std::lock_guard<std::mutex> lock(mutex);
+      if (active && callback)
+      {
+        callback(event);
+      }
+      return active;
+    }
   };
 
   using Ptr = std::shared_ptr<BabeltraceParser>;
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 4928765..006b9d4 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -99,7 +99,7 @@ void BabeltraceParser::process(FILE* stdout)
           auto event = parse(line);
           for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
           {
-            if ((*it)->active == false)
+            if ((*it)->call(event) == false)
             {
               // session went inactive, remove it.
               std::stringstream ss;
@@ -108,10 +108,6 @@ void BabeltraceParser::process(FILE* stdout)
               it = sessions_recording_.erase(it);
               continue;
             }
-            if ((*it)->callback)
-            {
-              (*it)->callback(event);
-            }
             it++;
           }
         }
-- 
2.43.0


From f1d16a60f40962c808107c1bc953d721dac64096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:26 +0000
Subject: [PATCH 24/66] fix: trace lines that arrive together, in pieces or
 that are long are delivered as one event each, without waiting for the next
 line

---
 .../src/lttng/babeltrace_parser.cpp           | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 006b9d4..ed8ebc4 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,6 +28,9 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
+#include <sys/select.h>
+#include <unistd.h>
+#include <array>
 #include <iostream>
 #include <sstream>
 
@@ -61,6 +64,7 @@ void BabeltraceParser::process(FILE* stdout)
   // start the processing.
   processing_.store(true);
   std::array<char, 1024> tmp;
+  std::string pending;  // text after the last complete line.
   int fd = fileno(stdout);
   fd_set read_fds;
   fd_set write_fds;
@@ -84,14 +88,21 @@ void BabeltraceParser::process(FILE* stdout)
     }
     if (FD_ISSET(fd, &read_fds))
     {
-      // read line
-      std::string line;
-      if (std::fgets(tmp.data(), tmp.size(), stdout))
+      // Read what is available, without stdio as lines in its buffer are invisible to select.
+      const ssize_t count = ::read(fd, tmp.data(), tmp.size());
+      if (count < 0)
       {
-        line = std::string(tmp.data());
+        continue;
       }
-      if (!line.empty())
+      const bool end_of_file = count == 0;
+      pending.append(tmp.data(), static_cast<std::size_t>(count));
+
+      // Handle all complete lines, at the end of the file the remainder is the last line.
+      std::size_t line_end = 0;
+      while (!pending.empty() && ((line_end = pending.find('\n')) != std::string::npos || end_of_file))
       {
+        const std::string line = pending.substr(0, line_end == std::string::npos ? line_end : line_end + 1);
+        pending.erase(0, line.size());
         // lock, if recording sessions, parse and pass to all recording sessions.
         std::lock_guard<std::mutex> lock(mutex_);
         if (!sessions_recording_.empty())
@@ -112,7 +123,7 @@ void BabeltraceParser::process(FILE* stdout)
           }
         }
       }
-      if (std::feof(stdout))
+      if (end_of_file)
       {
         logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
         processing_.store(false);
-- 
2.43.0


From 004cf993f1f33e9a2284152f4f2b09bb4f5e6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 25/66] fix: halting the babeltrace parser before its thread
 got to process does not hang

---
 .../scalopus_tracing/babeltrace_parser.h               |  8 +++++++-
 scalopus_tracing/src/lttng/babeltrace_parser.cpp       | 10 ++++++++--
 scalopus_tracing/src/lttng/babeltrace_tool.cpp         |  1 +
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index f964aee..ee01ba8 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -101,6 +101,11 @@ public:
    */
   void halt();
 
+  /**
+   * @brief Undo an earlier halt, such that process can be called again.
+   */
+  void reset();
+
   /**
    * @brief Set the logging function to use.
    */
@@ -118,7 +123,8 @@ public:
   static CTFEvent parse(std::string line);
 
 private:
-  std::atomic_bool processing_{ false };  //! Bool to check on each while loop in the process function.
+  std::atomic_bool processing_{ false };  //! True while the process function is executing.
+  std::atomic_bool halted_{ false };      //! Bool to check on each while loop in the process function.
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
   std::set<std::shared_ptr<EventCallback>> sessions_recording_;  //! Set of sessions that are actively recording.
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index ed8ebc4..281a87d 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -73,7 +73,7 @@ void BabeltraceParser::process(FILE* stdout)
   FD_ZERO(&write_fds);
   FD_ZERO(&except_fds);
   struct timeval tv;
-  while (processing_.load())  // while processing.
+  while (processing_.load() && !halted_.load())  // while processing.
   {
     tv.tv_sec = 0;
     tv.tv_usec = 10000;
@@ -135,6 +135,7 @@ void BabeltraceParser::process(FILE* stdout)
       processing_.store(false);
     }
   };
+  processing_.store(false);
 }
 
 bool BabeltraceParser::isProcessing()
@@ -142,9 +143,14 @@ bool BabeltraceParser::isProcessing()
   return processing_.load();
 }
 
+void BabeltraceParser::reset()
+{
+  halted_.store(false);
+}
+
 void BabeltraceParser::halt()
 {
-  processing_.store(false);
+  halted_.store(true);  // also effective if process() still has to start.
   std::lock_guard<std::mutex> lock(mutex_);
   sessions_recording_.clear();
 }
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 8c2c49d..83e6f63 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -72,6 +72,7 @@ void BabeltraceTool::init(std::string path)
   }
 
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
+  parser_->reset();
   parser_worker_ = std::thread([&]() { parser_->process(process_->stdoutFile()); });
 }
 
-- 
2.43.0


From 35b395c83bd975d7beff9764bc9e7e5a29a15a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 26/66] fix: the logging function of the babeltrace parser can
 be set while it is processing

---
 .../scalopus_tracing/babeltrace_parser.h      |  6 +++++
 .../src/lttng/babeltrace_parser.cpp           | 24 +++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index ee01ba8..a8eb943 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -128,7 +128,13 @@ private:
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
   std::set<std::shared_ptr<EventCallback>> sessions_recording_;  //! Set of sessions that are actively recording.
+  std::mutex logger_mutex_;  //! Mutex for the logging function.
   LoggingFunction logger_;
+
+  /**
+   * @brief Pass a message to the logging function.
+   */
+  void log(const std::string& message);
 };
 
 }  // namespace scalopus
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 281a87d..a670367 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -50,14 +50,28 @@ CTFEvent BabeltraceParser::parse(std::string line)
 
 void BabeltraceParser::setLogger(LoggingFunction logger)
 {
+  std::lock_guard<std::mutex> lock(logger_mutex_);
   logger_ = logger;
 }
 
+void BabeltraceParser::log(const std::string& message)
+{
+  LoggingFunction logger;
+  {
+    std::lock_guard<std::mutex> lock(logger_mutex_);
+    logger = logger_;
+  }
+  if (logger)
+  {
+    logger(message);
+  }
+}
+
 void BabeltraceParser::process(FILE* stdout)
 {
   if (stdout == nullptr)
   {
-    logger_("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
+    log("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
     return;
   }
 
@@ -115,7 +129,7 @@ void BabeltraceParser::process(FILE* stdout)
               // session went inactive, remove it.
               std::stringstream ss;
               ss << "[BabeltraceParser] callback inactive: " << it->get();
-              logger_(ss.str());
+              log(ss.str());
               it = sessions_recording_.erase(it);
               continue;
             }
@@ -125,13 +139,13 @@ void BabeltraceParser::process(FILE* stdout)
       }
       if (end_of_file)
       {
-        logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
+        log("[BabeltraceParser] Reached end of file, quiting parser function.");
         processing_.store(false);
       }
     }
     if (FD_ISSET(fd, &except_fds))
     {
-      logger_("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
+      log("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
       processing_.store(false);
     }
   };
@@ -160,7 +174,7 @@ void BabeltraceParser::setCallback(const std::shared_ptr<EventCallback>& callbac
   std::lock_guard<std::mutex> lock(mutex_);
   std::stringstream ss;
   ss << "[BabeltraceParser] Adding callback: " << callback.get();
-  logger_(ss.str());
+  log(ss.str());
   sessions_recording_.insert(callback);
 }
 
-- 
2.43.0


From 065324d27fe4108ccda45c4fead8a7aef86d5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:25 +0000
Subject: [PATCH 27/66] fix: a native trace source that was dropped is released
 by the provider instead of recording forever

---
 .../scalopus_tracing/native_trace_provider.h          |  3 ++-
 scalopus_tracing/src/native/native_trace_provider.cpp | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
index fc326dc..c591895 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/endpoint.h>
 #include <scalopus_tracing/scope_tracing_provider.h>
+#include <memory>
 #include <set>
 
 namespace scalopus
@@ -84,7 +85,7 @@ private:
   void incoming(const Data& incoming);
 
   std::mutex source_mutex_;
-  std::set<std::shared_ptr<NativeTraceSource>> sources_;
+  std::set<std::weak_ptr<NativeTraceSource>, std::owner_less<std::weak_ptr<NativeTraceSource>>> sources_;
 
   LoggingFunction logger_;  //!< Function to use for logging.
 };
diff --git a/scalopus_tracing/src/native/native_trace_provider.cpp b/scalopus_tracing/src/native/native_trace_provider.cpp
index 8609078..1d137d9 100644
--- a/scalopus_tracing/src/native/native_trace_provider.cpp
+++ b/scalopus_tracing/src/native/native_trace_provider.cpp
@@ -67,13 +67,20 @@ void NativeTraceProvider::incoming(const Data& incoming)
   {
     std::lock_guard<decltype(source_mutex_)> lock(source_mutex_);
 
-    // Add all sources that are recording.
-    for (auto& source : sources_)
+    // Add all sources that are recording, forget about the sources that no longer exist.
+    for (auto it = sources_.begin(); it != sources_.end();)
     {
+      auto source = it->lock();
+      if (source == nullptr)
+      {
+        it = sources_.erase(it);
+        continue;
+      }
       if (source->isRecording())
       {
         recording_sources.insert(source);
       }
+      it++;
     }
   }
 
-- 
2.43.0


From 6f212f28537308d3b72b23d4c77d0947ef63f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:25 +0000
Subject: [PATCH 28/66] fix: finishing an interval of a native trace source
 whose provider is gone does not dereference a null pointer

---
 scalopus_tracing/src/native/native_trace_source.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e6cabb3..fc83b66 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -75,10 +75,11 @@ std::vector<json> NativeTraceSource::finishInterval()
 
   // Update mappings.
   auto provider = provider_.lock();
-  if (provider != nullptr)
+  if (provider == nullptr)
   {
-    provider->updateMapping();
+    return res;  // provider is gone, so nothing is left to resolve the trace ids.
   }
+  provider->updateMapping();
   const auto mapping = provider->getMapping();
 
   // Obtain the data chunks.
-- 
2.43.0


From 5402b6211633e644189906d84457c7eb663c3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:37 +0000
Subject: [PATCH 29/66] fix: counter events from LTTng carry the values of
 their own process, in order of time

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 30 +++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 23dbe09..f56eed8 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -81,7 +81,7 @@ std::vector<json> LttngSource::convertEvents()
   // Map for the counter states.
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
-  CounterMap counter_values;
+  using ProcessCounter = std::map<unsigned long long int, CounterMap>;
 
   provider_->updateMapping();
   const auto mapping = provider_->getMapping();
@@ -143,9 +143,7 @@ std::vector<json> LttngSource::convertEvents()
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
         const std::int64_t z = static_cast<std::int64_t>(event.eventData().at("value"));
-        // Update the current counters.
-        counter_values[counter_series.first][counter_series.second] = z;
-        entry["args"] = counter_values[counter_series.first];
+        entry["args"] = SeriesMap{ { counter_series.second, z } };  // Extended with the other series later on.
       }
       result.push_back(entry);
     }
@@ -157,8 +155,23 @@ std::vector<json> LttngSource::convertEvents()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Iterate in order of time, to populate all counters with the current value of all series of their process.
+  ProcessCounter counter_values;
+  for (auto& entry : result)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<unsigned long long int>()][entry.at("name").get<std::string>()];
+      for (const auto& series : entry.at("args").get<SeriesMap>())
+      {
+        values[series.first] = series.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
-  CounterMap count_all_series;
+  ProcessCounter count_all_series;
   for (auto it = result.rbegin(); it < result.rend(); it++)
   {
     auto& entry = *it;
@@ -166,9 +179,10 @@ std::vector<json> LttngSource::convertEvents()
     {
       auto values = entry.at("args").get<SeriesMap>();
       const auto& name = entry.at("name").get<std::string>();
-      values.insert(count_all_series[name].begin(), count_all_series[name].end());  // add future keys to this entry
-      entry["args"] = values;           // update values to include the series used in the future.
-      count_all_series[name] = values;  // store most recent value in the map.
+      auto& future = count_all_series[entry.at("pid").get<unsigned long long int>()][name];
+      values.insert(future.begin(), future.end());  // add future keys to this entry
+      entry["args"] = values;                       // update values to include the series used in the future.
+      future = values;                              // store most recent value in the map.
     }
   }
 
-- 
2.43.0


From df67b4dfa77566d32732d4069879875fe5745180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:37 +0000
Subject: [PATCH 30/66] fix: incomplete or unknown LTTng events do not abort
 the conversion of an interval

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index f56eed8..c0e0d1b 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -92,6 +92,12 @@ std::vector<json> LttngSource::convertEvents()
 
     if (event.domain() == "scalopus_scope_id")
     {
+      // Incomplete lines don't have everything, without these no trace event can be made.
+      if (event.eventContext().count("vpid") == 0 || event.eventContext().count("pthread_id") == 0)
+      {
+        continue;
+      }
+
       // entry scope:
       // , {"name": "function name", "pid": 5976, "ts": 77033.2, "cat": "PERF", "tid": 140501248366336, "ph": "B"}
       // exit of scope:
@@ -137,7 +143,7 @@ std::vector<json> LttngSource::convertEvents()
         entry["ph"] = "i";
         entry["s"] = "t";
       }
-      else if (event.name() == "count_event")
+      else if (event.name() == "count_event" && event.eventData().count("value") != 0)
       {
         entry["ph"] = "C";
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
@@ -145,6 +151,10 @@ std::vector<json> LttngSource::convertEvents()
         const std::int64_t z = static_cast<std::int64_t>(event.eventData().at("value"));
         entry["args"] = SeriesMap{ { counter_series.second, z } };  // Extended with the other series later on.
       }
+      else
+      {
+        continue;  // Not an event we know about.
+      }
       result.push_back(entry);
     }
   }
-- 
2.43.0


From 80e8e823b4c4e01a345876c060e57a722e14898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 31/66] fix: counter events of the native tracepoints carry the
 values of all series in order of time

---
 .../src/native/native_trace_source.cpp        | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index fc83b66..f5a13eb 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -93,7 +93,6 @@ std::vector<json> NativeTraceSource::finishInterval()
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
   using ProcessCounter = std::map<int, CounterMap>;
-  ProcessCounter counter_values;
 
   // Now, we start converting the chunks of data we obtain into trace events.
   try
@@ -155,9 +154,7 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["name"] = counter_series.first;
             std::int64_t z;
             cbor::from_cbor(z, *event.dynamic_data);
-            // Update the current counters.
-            counter_values[pid][counter_series.first][counter_series.second] = z;
-            entry["args"] = counter_values[pid][counter_series.first];
+            entry["args"] = SeriesMap{ { counter_series.second, z } };  // Extended with the other series later on.
           }
           else
           {
@@ -187,6 +184,21 @@ std::vector<json> NativeTraceSource::finishInterval()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Iterate in order of time, to populate all counters with the current value of all series of their process.
+  ProcessCounter counter_values;
+  for (auto& entry : res)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<int>()][entry.at("name").get<std::string>()];
+      for (const auto& series : entry.at("args").get<SeriesMap>())
+      {
+        values[series.first] = series.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
   ProcessCounter counter_all_series;
   for (auto it = res.rbegin(); it < res.rend(); it++)
-- 
2.43.0


From 581c7ec7c691bdbbf314b1e9994d1c994b2eb9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 32/66] fix: corrupt native event data and unknown events are
 skipped without losing the intact ones

---
 .../src/native/native_trace_source.cpp        | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index f5a13eb..c99d813 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -94,10 +94,10 @@ std::vector<json> NativeTraceSource::finishInterval()
   using CounterMap = std::map<std::string, SeriesMap>;
   using ProcessCounter = std::map<int, CounterMap>;
 
-  // Now, we start converting the chunks of data we obtain into trace events.
-  try
+  // Now, we start converting the chunks of data we obtain into trace events, a corrupt chunk does not affect the others.
+  for (const auto& dptr : data)
   {
-    for (const auto& dptr : data)
+    try
     {
       // First, we parse the bson we got and convert it to events.
       std::map<std::string, cbor::cbor_object> parsed;
@@ -152,30 +152,36 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["ph"] = "C";
             const auto counter_series = NativeTraceProvider::splitCounterSeriesName(trace_id_string);
             entry["name"] = counter_series.first;
+            if (event.dynamic_data == nullptr)
+            {
+              provider->log("Counter event without a value.");
+              continue;
+            }
             std::int64_t z;
             cbor::from_cbor(z, *event.dynamic_data);
             entry["args"] = SeriesMap{ { counter_series.second, z } };  // Extended with the other series later on.
           }
           else
           {
-            throw std::runtime_error(std::string("Type specification unknown, got: ") + std::to_string(type));
+            provider->log(std::string("Type specification unknown, got: ") + std::to_string(type));
+            continue;
           }
           res.push_back(entry);
         }
       }
     }
-  }
-  catch (const std::out_of_range& e)
-  {
-    provider->log(std::string("Encountered out of range during data processing: ") + e.what());
-  }
-  catch (const cbor::error& e)
-  {
-    provider->log(std::string("Encountered cbor error: ") + e.what());
-  }
-  catch (const std::runtime_error& e)
-  {
-    provider->log(std::string("Encountered runtime error: ") + e.what());
+    catch (const std::out_of_range& e)
+    {
+      provider->log(std::string("Encountered out of range during data processing: ") + e.what());
+    }
+    catch (const cbor::error& e)
+    {
+      provider->log(std::string("Encountered cbor error: ") + e.what());
+    }
+    catch (const std::runtime_error& e)
+    {
+      provider->log(std::string("Encountered runtime error: ") + e.what());
+    }
   }
 
   // Sort res by "ts" because sometimes the "E"nd events are out of order wrt the "B"egin, leading to unfinished scope
-- 
2.43.0


From 3889d09705f54b51fb677c885bab8512581b56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:50 +0000
Subject: [PATCH 33/66] fix: TransportUnix, exceptions of endpoints do not
 terminate the process

A request an endpoint can't parse made its handle() throw, which escaped the
worker thread of the transport and terminated the process.
---
 scalopus_transport/src/transport_unix.cpp | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 5dc2484..1731c19 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -314,8 +314,16 @@ void TransportUnix::work()
           protocol::Msg response;
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
-          Data outgoing;
-          if (endpoint->unsolicited(*this, incoming.data, response.data))
+          bool respond = false;
+          try
+          {
+            respond = endpoint->unsolicited(*this, incoming.data, response.data);
+          }
+          catch (const std::exception& e)
+          {
+            logger_("[TransportUnix] Endpoint " + incoming.endpoint + " failed on unsolicited data: " + e.what());
+          }
+          if (respond)
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
@@ -421,9 +429,17 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   const auto endpoint = getEndpoint(request.endpoint);
   if (endpoint != nullptr)
   {
-    Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return endpoint->handle(*this, request.data, response.data);
+    try
+    {
+      return endpoint->handle(*this, request.data, response.data);
+    }
+    catch (const std::exception& e)
+    {
+      // The request may be anything, an endpoint that can't handle it should not take down the process.
+      logger_("[TransportUnix] Endpoint " + request.endpoint + " failed to handle a request: " + e.what());
+      return false;
+    }
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 009c6cc3c70cfc9312e222f789b724173b3d8fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:50 +0000
Subject: [PATCH 34/66] fix: TransportLoopback, exceptions of endpoints do not
 terminate the process

---
 scalopus_transport/src/transport_loopback.cpp | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index b57810e..801d3c4 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -111,11 +111,19 @@ void TransportLoopback::work()
           continue;
         }
 
-        Data resp;
-        auto res = endpoint->handle(*server_, outgoing, resp);
-        if (res)
+        try
         {
-          promise.set_value(resp);
+          Data resp;
+          auto res = endpoint->handle(*server_, outgoing, resp);
+          if (res)
+          {
+            promise.set_value(resp);
+          }
+        }
+        catch (const std::exception& e)
+        {
+          logger_("[TransportLoopback] Endpoint " + remote_endpoint_name + " failed to handle a request: " + e.what());
+          promise.set_exception(std::current_exception());
         }
       }
     }
@@ -148,18 +156,25 @@ void TransportLoopback::work()
       for (const auto& message : messages)
       {
         const auto& endpoint_name = message.first;
-        auto endpoint = getEndpoint(endpoint_name);
-        Data resp;
-        if ((endpoint != nullptr) && endpoint->unsolicited(*this, message.second, resp))
+        try
         {
-          Data resp2;
-          auto server_endpoint = server_->getEndpoint(endpoint_name);
-          if ((server_endpoint != nullptr) && server_endpoint->handle(*server_, resp, resp2))
+          auto endpoint = getEndpoint(endpoint_name);
+          Data resp;
+          if ((endpoint != nullptr) && endpoint->unsolicited(*this, message.second, resp))
           {
-            // We stop here... This is slightly different than a real transport... but works for now.
-            logger_("[TransportLoopback] does not handle responses on unsolicited data.");
+            Data resp2;
+            auto server_endpoint = server_->getEndpoint(endpoint_name);
+            if ((server_endpoint != nullptr) && server_endpoint->handle(*server_, resp, resp2))
+            {
+              // We stop here... This is slightly different than a real transport... but works for now.
+              logger_("[TransportLoopback] does not handle responses on unsolicited data.");
+            }
           }
         }
+        catch (const std::exception& e)
+        {
+          logger_("[TransportLoopback] Endpoint " + endpoint_name + " failed on unsolicited data: " + e.what());
+        }
       }
     }
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
-- 
2.43.0


From adc627d84a2edb8e50ef11c76680ab142199e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 35/66] fix: Deeply nested BSON requests do not overflow the
 stack

---
 .../scalopus_general/internal/bson_request.h  | 124 ++++++++++++++++++
 .../src/endpoint_process_info.cpp             |   3 +-
 .../src/endpoint_trace_configurator.cpp       |   3 +-
 3 files changed, 128 insertions(+), 2 deletions(-)
 create mode 100644 scalopus_general/include/scalopus_general/internal/bson_request.h

diff --git a/scalopus_general/include/scalopus_general/internal/bson_request.h b/scalopus_general/include/scalopus_general/internal/bson_request.h
new file mode 100644
index 0000000..8b3a401
--- /dev/null
+++ b/scalopus_general/include/scalopus_general/internal/bson_request.h
@@ -0,0 +1,124 @@
+/*
+  Copyright (c) 2018-2019, Ivor Wanders
+  All rights reserved.
+
+  Redistribution and use in source and binary forms, with or without
+  modification, are permitted provided that the following conditions are met:
+
+  * Redistributions of source code must retain the above copyright notice, this
+    list of conditions and the following disclaimer.
+
+  * Redistributions in binary form must reproduce the above copyright notice,
+    this list of conditions and the following disclaimer in the documentation
+    and/or other materials provided with the distribution.
+
+  * Neither the name of the author nor the names of contributors may be used to
+    endorse or promote products derived from this software without specific
+    prior written permission.
+
+  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS" AND
+  ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED
+  WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE
+  DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE LIABLE
+  FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL
+  DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR
+  SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY,
+  OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+  OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+*/
+#ifndef SCALOPUS_GENERAL_INTERNAL_BSON_REQUEST_H
+#define SCALOPUS_GENERAL_INTERNAL_BSON_REQUEST_H
+
+#include <scalopus_interface/types.h>
+#include <nlohmann/json.hpp>
+#include <stdexcept>
+#include <string>
+
+namespace scalopus
+{
+namespace internal
+{
+/**
+ * @brief SAX handler that ignores all values, but stops the parser if the data is nested too deep.
+ */
+class NestingLimit : public nlohmann::json_sax<nlohmann::json>
+{
+public:
+  bool null() override
+  {
+    return true;
+  }
+  bool boolean(bool) override
+  {
+    return true;
+  }
+  bool number_integer(number_integer_t) override
+  {
+    return true;
+  }
+  bool number_unsigned(number_unsigned_t) override
+  {
+    return true;
+  }
+  bool number_float(number_float_t, const string_t&) override
+  {
+    return true;
+  }
+  bool string(string_t&) override
+  {
+    return true;
+  }
+  bool binary(binary_t&) override
+  {
+    return true;
+  }
+  bool key(string_t&) override
+  {
+    return true;
+  }
+  bool start_object(std::size_t) override
+  {
+    return ++depth_ <= max_depth;
+  }
+  bool end_object() override
+  {
+    depth_--;
+    return true;
+  }
+  bool start_array(std::size_t) override
+  {
+    return ++depth_ <= max_depth;
+  }
+  bool end_array() override
+  {
+    depth_--;
+    return true;
+  }
+  bool parse_error(std::size_t, const std::string&, const nlohmann::detail::exception&) override
+  {
+    return false;
+  }
+
+private:
+  static const std::size_t max_depth = 16;
+  std::size_t depth_{ 0 };
+};
+
+/**
+ * @brief Parse the BSON data received from a peer, throws if the data is invalid.
+ * The parser is recursive, data that is nested very deep would overflow the stack and is thus rejected.
+ */
+inline nlohmann::json parseBsonRequest(const Data& request)
+{
+  NestingLimit limit;
+  if (!nlohmann::json::sax_parse(request, &limit, nlohmann::json::input_format_t::bson))
+  {
+    throw std::runtime_error("Request is not valid BSON, or is nested too deep.");
+  }
+  return nlohmann::json::from_bson(request);
+}
+}  // namespace internal
+}  // namespace scalopus
+
+#endif  // SCALOPUS_GENERAL_INTERNAL_BSON_REQUEST_H
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index bb68e06..841dff4 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -28,6 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include <scalopus_general/endpoint_process_info.h>
+#include <scalopus_general/internal/bson_request.h>
 #include <scalopus_general/internal/thread_name_tracker.h>
 #include <cstring>
 #include <iostream>
@@ -60,7 +61,7 @@ void EndpointProcessInfo::setProcessName(const std::string& process_name)
 
 bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, Data& response)
 {
-  json req = json::from_bson(request);
+  json req = internal::parseBsonRequest(request);
 
   // Request is process name:
   if (req["cmd"].get<std::string>() == "info")
diff --git a/scalopus_tracing/src/endpoint_trace_configurator.cpp b/scalopus_tracing/src/endpoint_trace_configurator.cpp
index 74b66e7..e606d85 100644
--- a/scalopus_tracing/src/endpoint_trace_configurator.cpp
+++ b/scalopus_tracing/src/endpoint_trace_configurator.cpp
@@ -27,6 +27,7 @@
   OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
+#include <scalopus_general/internal/bson_request.h>
 #include <scalopus_tracing/endpoint_trace_configurator.h>
 #include <scalopus_tracing/trace_configurator.h>
 #include <iostream>
@@ -105,7 +106,7 @@ EndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTrac
 
 bool EndpointTraceConfigurator::handle(Transport& /* server */, const Data& request, Data& response)
 {
-  json req = json::from_bson(request);
+  json req = internal::parseBsonRequest(request);
   auto configurator_instance = TraceConfigurator::getInstance();
 
   auto thread_map = configurator_instance->getThreadMap();
-- 
2.43.0


From 71cce54b1f4724c221cc8da13d05e37f923d0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 36/66] fix: EndpointTraceMapping, handle empty requests

---
 scalopus_tracing/src/endpoint_trace_mapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 100897b..4b266f9 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -51,7 +51,7 @@ bool EndpointTraceMapping::handle(Transport& /* server */, const Data& request,
   ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };
   // cool, we have the mappings... now we need to serialize this...
 
-  if (request.front() == 'm')
+  if (!request.empty() && request.front() == 'm')
   {
     json jdata = json::object();
     jdata["mapping"] = mapping;  // need to serialize an object, not an array.
-- 
2.43.0


From b491e838e4f580b15cd117f5a50adbd2142f85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:37 +0000
Subject: [PATCH 37/66] fix: EndpointNativeTraceSender, the worker's running
 flag is read and written by two threads

---
 .../include/scalopus_tracing/endpoint_native_trace_sender.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
index 3b70579..ce03003 100644
--- a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
+++ b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
@@ -31,6 +31,8 @@
 #define SCALOPUS_TRACING_ENDPOINT_NATIVE_TRACE_SENDER_H
 
 #include <scalopus_interface/transport.h>
+#include <atomic>
+#include <thread>
 
 namespace scalopus
 {
@@ -51,7 +53,7 @@ public:
 
 private:
   void work();
-  bool running_{ true };
+  std::atomic_bool running_{ true };
   std::thread worker_;
 };
 
-- 
2.43.0


From 819ac4b01307a80c9924090d6b0f0762dedaac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:37 +0000
Subject: [PATCH 38/66] fix: EndpointNativeTraceSender does not discard events
 before the transport is set

The worker drained the buffers from its construction on, events collected before
the endpoint was added to a transport were lost. It also read the transport
pointer without synchronisation.
---
 .../endpoint_native_trace_sender.h             |  3 +++
 .../native/endpoint_native_trace_sender.cpp    | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
index ce03003..9adbf56 100644
--- a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
+++ b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
@@ -50,10 +50,13 @@ public:
 
   // From the endpoint
   std::string getName() const;
+  using Endpoint::setTransport;
+  void setTransport(Transport* transport) override;
 
 private:
   void work();
   std::atomic_bool running_{ true };
+  std::atomic<Transport*> sender_transport_{ nullptr };  //!< The transport, as used by the worker thread.
   std::thread worker_;
 };
 
diff --git a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
index fd5c148..6ef3ff1 100644
--- a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
+++ b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
@@ -79,6 +79,13 @@ void EndpointNativeTraceSender::work()
   auto& collector = *collector_ptr;
   while (running_)
   {
+    Transport* transport = sender_transport_;
+    if (transport == nullptr)
+    {
+      // Nobody to send the events to yet, leave them in the buffers.
+      std::this_thread::sleep_for(std::chrono::milliseconds(10));
+      continue;
+    }
     // First, retrieve the orphaned buffers.
     auto tid_buffers = collector.retrieveAndClearOrphanedBuffers();
     // Then, append to that the active buffers.
@@ -102,16 +109,19 @@ void EndpointNativeTraceSender::work()
     }
     if (collected)
     {
-      if (transport_ != nullptr)
-      {
-        transport_->broadcast("native_trace_receiver", process_events(events));
-      }
+      transport->broadcast("native_trace_receiver", process_events(events));
     }
     // @TODO; do some real rate limiting here.
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 }
 
+void EndpointNativeTraceSender::setTransport(Transport* transport)
+{
+  Endpoint::setTransport(transport);
+  sender_transport_ = transport;
+}
+
 std::string EndpointNativeTraceSender::getName() const
 {
   return name;
-- 
2.43.0


From 5314a616839e78f19c35a10a92fb6001c4cf63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 39/66] fix: TraceSession, sources, logger and running flag are
 shared with the worker thread

The worker already runs when the sources and the logger are set.
---
 scalopus_catapult/src/trace_session.cpp | 34 +++++++++++++++++++------
 scalopus_catapult/src/trace_session.h   | 19 +++++++++++---
 2 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index fc22111..43c8d5e 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -46,7 +46,24 @@ TraceSession::~TraceSession()
 
 void TraceSession::addSource(TraceEventSource::Ptr&& source)
 {
-  sources_.push_back(source);
+  std::lock_guard<decltype(setup_mutex_)> lock(setup_mutex_);
+  sources_.push_back(std::move(source));
+}
+
+std::vector<TraceEventSource::Ptr> TraceSession::getSources() const
+{
+  std::lock_guard<decltype(setup_mutex_)> lock(setup_mutex_);
+  return sources_;
+}
+
+void TraceSession::log(const std::string& msg) const
+{
+  LoggingFunction logger;
+  {
+    std::lock_guard<decltype(setup_mutex_)> lock(setup_mutex_);
+    logger = logger_;
+  }
+  logger(msg);
 }
 
 void TraceSession::incoming(const std::string& data)
@@ -80,7 +97,7 @@ void TraceSession::loop()
     }
 
     // Perform work with the sources
-    for (auto& source : sources_)
+    for (auto& source : getSources())
     {
       source->work();
     }
@@ -93,7 +110,7 @@ void TraceSession::loop()
 
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
-  logger_("[session " + identifier() + "] <- " + incoming_msg);
+  log("[session " + identifier() + "] <- " + incoming_msg);
   auto msg = json::parse(incoming_msg);
 
   if (msg["method"] == "Tracing.getCategories")
@@ -110,7 +127,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   {
     // Tracing was started by catapult.
     json res = { { "id", msg["id"] }, { "result", {} } };
-    for (auto& source : sources_)
+    for (auto& source : getSources())
     {
       source->startInterval();
     }
@@ -121,7 +138,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   if (msg["method"] == "Tracing.end")
   {
     // Tracing was stopped.
-    for (auto& source : sources_)
+    for (auto& source : getSources())
     {
       source->stopInterval();
     }
@@ -130,7 +147,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     outgoing(res.dump());
 
     std::vector<json> events;
-    for (auto& source : sources_)
+    for (auto& source : getSources())
     {
       auto results = source->finishInterval();
       events.insert(events.end(), results.begin(), results.end());
@@ -145,7 +162,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
 
 void TraceSession::chunkedTransmit(const std::vector<json>& events)
 {
-  logger_("[session " + identifier() + "] -> events: " + std::to_string(events.size()));
+  log("[session " + identifier() + "] -> events: " + std::to_string(events.size()));
   // So, now we send the client data in chunks, needs to be in chunks because the webserver buffer is 16 mb.
   size_t event_count = events.size();
   const size_t chunks_needed = ((event_count / CHUNK_SIZE) + 1);
@@ -163,7 +180,7 @@ void TraceSession::chunkedTransmit(const std::vector<json>& events)
 
 void TraceSession::outgoing(const std::string& msg)
 {
-  logger_("[session " + identifier() + "] -> " + msg);
+  log("[session " + identifier() + "] -> " + msg);
   response_(msg);
 }
 
@@ -187,6 +204,7 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
 
 void TraceSession::setLogger(LoggingFunction logger)
 {
+  std::lock_guard<decltype(setup_mutex_)> lock(setup_mutex_);
   logger_ = std::move(logger);
 }
 
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 8021426..804a287 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -32,6 +32,7 @@
 #define SCALOPUS_CATAPULT_TRACE_SESSION_H
 
 #include <scalopus_interface/trace_event_source.h>
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -81,12 +82,24 @@ public:
 private:
   ResponseFunction response_;  //!< The function to be used to send data to the client over the websocket.
 
+  mutable std::mutex setup_mutex_;  //!< Mutex for the sources and the logger, the worker runs while these are set.
   std::vector<TraceEventSource::Ptr> sources_;  //!< The active sources in this session.
 
   mutable std::mutex incoming_mutex_;    //!< Mutex for list of incoming messages that are pending processing.
   std::list<std::string> incoming_msg_;  //!< List of incoming messages that will be processed by the worker thread.
 
-  LoggingFunction logger_;  //!< Function to output log messages with.
+  LoggingFunction logger_{ [](const std::string&) {} };  //!< Function to output log messages with.
+
+  /**
+   * @brief Obtain the current sources.
+   */
+  std::vector<TraceEventSource::Ptr> getSources() const;
+
+  /**
+   * @brief Output a log message with the current logger.
+   */
+  void log(const std::string& msg) const;
+
   /**
    * @brief Function to check whether there are messages pending in incoming.
    * @return true if there are messages pending in incoming.
@@ -106,8 +119,8 @@ private:
    */
   void outgoing(const std::string& msg);
 
-  std::thread worker_;    //!< Worker thread for this session.
-  bool running_{ true };  //!< Bool to quit the worker thread gracefully.
+  std::thread worker_;                //!< Worker thread for this session.
+  std::atomic_bool running_{ true };  //!< Bool to quit the worker thread gracefully.
 
   /**
    * @brief The function executed by the worker thread.
-- 
2.43.0


From 3ad6a803721a31102f496f12879f8dc03085476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 40/66] fix: TraceSession, a malformed message does not
 terminate the process

---
 scalopus_catapult/src/trace_session.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 43c8d5e..d2ec33d 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -111,22 +111,29 @@ void TraceSession::loop()
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
   log("[session " + identifier() + "] <- " + incoming_msg);
-  auto msg = json::parse(incoming_msg);
+  const auto msg = json::parse(incoming_msg, nullptr, false);
+  if (!msg.is_object() || msg.count("method") == 0)
+  {
+    log("[session " + identifier() + "] ignoring malformed message.");
+    return;
+  }
+  const json method = msg.at("method");
+  const json id = msg.value("id", json());
 
-  if (msg["method"] == "Tracing.getCategories")
+  if (method == "Tracing.getCategories")
   {
     // This method is on the first record click, when we can specify the capture profile.
     // We can specify categories here, this requires folding out in the GUI so it's of limited use unfortunately.
-    json res = { { "id", msg["id"] },
+    json res = { { "id", id },
                  { "result", { { "categories", { "!foo", "!bar", "disabled-by-default-buz" } } } } };
     outgoing(res.dump());
     return;
   }
 
-  if (msg["method"] == "Tracing.start")
+  if (method == "Tracing.start")
   {
     // Tracing was started by catapult.
-    json res = { { "id", msg["id"] }, { "result", {} } };
+    json res = { { "id", id }, { "result", {} } };
     for (auto& source : getSources())
     {
       source->startInterval();
@@ -135,7 +142,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     return;
   }
 
-  if (msg["method"] == "Tracing.end")
+  if (method == "Tracing.end")
   {
     // Tracing was stopped.
     for (auto& source : getSources())
@@ -143,7 +150,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
       source->stopInterval();
     }
 
-    json res = { { "id", msg["id"] }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
+    json res = { { "id", id }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
     outgoing(res.dump());
 
     std::vector<json> events;
-- 
2.43.0


From 79d8acf965c219ecc35050edfecbd55fa5822285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:11 +0000
Subject: [PATCH 41/66] fix: TraceSession, names that are not valid UTF-8 do
 not terminate the process

---
 scalopus_catapult/src/trace_session.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index d2ec33d..c913684 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -126,7 +126,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     // We can specify categories here, this requires folding out in the GUI so it's of limited use unfortunately.
     json res = { { "id", id },
                  { "result", { { "categories", { "!foo", "!bar", "disabled-by-default-buz" } } } } };
-    outgoing(res.dump());
+    outgoing(res.dump(-1, ' ', false, json::error_handler_t::replace));
     return;
   }
 
@@ -138,7 +138,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     {
       source->startInterval();
     }
-    outgoing(res.dump());
+    outgoing(res.dump(-1, ' ', false, json::error_handler_t::replace));
     return;
   }
 
@@ -151,7 +151,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     }
 
     json res = { { "id", id }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
-    outgoing(res.dump());
+    outgoing(res.dump(-1, ' ', false, json::error_handler_t::replace));
 
     std::vector<json> events;
     for (auto& source : getSources())
@@ -162,7 +162,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     chunkedTransmit(events);
 
     res = { { "method", "Tracing.tracingComplete" }, { "params", std::vector<int>{} } };
-    outgoing(res.dump());
+    outgoing(res.dump(-1, ' ', false, json::error_handler_t::replace));
     return;
   }
 }
@@ -203,7 +203,8 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Names come from other processes, bytes that are not valid UTF-8 are replaced.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "]}}";
   return ss.str();
-- 
2.43.0


From a6442400ee91fa55e6c71f766a125cf963518c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 42/66] fix: CatapultRecorder can be stopped or destroyed when
 it is not running

stop() on a recorder that is not running, which includes destroying a recorder
after stop(), joined a thread that does not exist and terminated the process.
---
 scalopus_catapult/src/catapult_recorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index c780a46..536d65e 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -54,7 +54,10 @@ void CatapultRecorder::loop()
 void CatapultRecorder::stop()
 {
   running_ = false;
-  worker_.join();
+  if (worker_.joinable())
+  {
+    worker_.join();
+  }
 }
 
 void CatapultRecorder::startInterval()
-- 
2.43.0


From 5dba19c22a7c74ffc61e3a8cccf800f06583834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 43/66] fix: CatapultRecorder, names that are not valid UTF-8
 do not make the collection fail

---
 scalopus_catapult/src/catapult_recorder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 536d65e..f0eaa4b 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -133,7 +133,8 @@ std::string CatapultRecorder::collectEvents()
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Names come from other processes, bytes that are not valid UTF-8 are replaced.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "\n]\n";
   return ss.str();
-- 
2.43.0


From c2c59423019adfb0bcf3d07157871a7bb11d787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 44/66] fix: ThreadStateSwitcher and suppressed restore the
 state when nested or used by several threads

---
 scalopus_python/scalopus/tracing.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scalopus_python/scalopus/tracing.py b/scalopus_python/scalopus/tracing.py
index 8b8341f..25644e6 100644
--- a/scalopus_python/scalopus/tracing.py
+++ b/scalopus_python/scalopus/tracing.py
@@ -29,6 +29,7 @@
 
 from .lib import tracing
 import random
+import threading
 from functools import wraps
 
 
@@ -206,7 +207,9 @@ class ThreadStateSwitcher:
     """
     def __init__(self, target_state):
         self.target_state = target_state
-        self.old_states = None
+        # The states to restore, per thread as the instance may be shared by
+        # them; a stack because the same instance may be entered again.
+        self.old_states = threading.local()
 
     def enter(self):
         self.__enter__()
@@ -215,10 +218,12 @@ class ThreadStateSwitcher:
         self.__exit__(None, None, None)
 
     def __enter__(self):
-        self.old_state = setThreadState(self.target_state)
+        if not hasattr(self.old_states, "stack"):
+            self.old_states.stack = []
+        self.old_states.stack.append(setThreadState(self.target_state))
 
     def __exit__(self, context_type, context_value, context_traceback):
-        setThreadState(self.old_state)
+        setThreadState(self.old_states.stack.pop())
 
 
 def suppressed(f):
-- 
2.43.0


From 3533ba5319156876d4af31aaeac82f0b711e5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 45/66] fix: weak_provider_endpoint_factory can be used,
 weakref was not imported

---
 scalopus_python/scalopus/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scalopus_python/scalopus/general.py b/scalopus_python/scalopus/general.py
index f0aff1a..7890e34 100644
--- a/scalopus_python/scalopus/general.py
+++ b/scalopus_python/scalopus/general.py
@@ -27,6 +27,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import weakref
+
 from .lib import general
 
 EndpointIntrospect = general.EndpointIntrospect
-- 
2.43.0


From 65e893b72abf8ae7fa9b884bdce64d1ab74d2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 46/66] fix: popen, the child does not continue as a copy of
 the program if the command can't be executed

---
 .../include_consumer/scalopus_tracing/subprocess.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 589a660..8bff013 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -141,7 +141,7 @@ private:
             dup2(err_pipe[WRITE], STDERR_FILENO) == -1 )
         {
             std::perror("subprocess: dup2() failed");
-            return;
+            _exit(127);
         }
 
         ::close(in_pipe[READ]);
@@ -158,7 +158,7 @@ private:
         if (execvp(cargs[0], &cargs[0]) == -1)
         {
             std::perror("subprocess: execvp() failed");
-            return;
+            _exit(127);  // this is a copy of the program, which may not continue.
         }
     }
 
-- 
2.43.0


From e66a3c132892deee4f88ccc06a1c88eabb09f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 47/66] fix: popen, a failing fork throws instead of signalling
 every process later, failures do not leak pipes

---
 .../scalopus_tracing/subprocess.hpp           | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 8bff013..8ce8420 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -33,7 +33,7 @@ public:
             pipe(out_pipe) == -1 ||
             pipe(err_pipe) == -1 )
         {
-            throw std::system_error(errno, std::system_category());
+            fail();
         }
 
         run(cmd, argv);
@@ -49,7 +49,8 @@ public:
         if (pipe(in_pipe) == -1 ||
             pipe(err_pipe) == -1 )
         {
-            throw std::system_error(errno, std::system_category());
+            out_pipe[WRITE] = -1;  // not ours to close.
+            fail();
         }
 
         run(cmd, argv);
@@ -115,6 +116,7 @@ private:
 
         pid = ::fork();
       
+        if (pid == -1) fail();
         if (pid == 0) child(argv);
 
         ::close(in_pipe[READ]);
@@ -134,6 +136,17 @@ private:
         err_stream  = new std::istream(err_filebuf);
     }
     
+    // Closes what is open of the pipes and throws the current error.
+    void fail()
+    {
+        const int error = errno;
+        for (int fd : { in_pipe[READ], in_pipe[WRITE], out_pipe[READ], out_pipe[WRITE], err_pipe[READ], err_pipe[WRITE] })
+        {
+            if (fd != -1) ::close(fd);
+        }
+        throw std::system_error(error, std::system_category());
+    }
+
     void child(const std::vector<std::string>& argv)
     {  
         if (dup2(in_pipe[READ], STDIN_FILENO)    == -1 ||
@@ -164,9 +177,9 @@ private:
 
     pid_t pid;
 
-    int in_pipe[2];
-    int out_pipe[2];
-    int err_pipe[2];
+    int in_pipe[2] = { -1, -1 };
+    int out_pipe[2] = { -1, -1 };
+    int err_pipe[2] = { -1, -1 };
    
     __gnu_cxx::stdio_filebuf<char>* in_filebuf;
     __gnu_cxx::stdio_filebuf<char>* out_filebuf;
-- 
2.43.0


From aade188512f7350205ad5d1c62b6a5a6196740ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:27 +0000
Subject: [PATCH 48/66] fix: BabeltraceTool leaves no babeltrace process or
 zombie behind when it is halted

---
 .../scalopus_tracing/subprocess.hpp           |  6 ++++++
 .../src/lttng/babeltrace_tool.cpp             | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 8ce8420..6421052 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -83,6 +83,12 @@ public:
         return WEXITSTATUS(status);
     };
 
+    // Returns whether the process ended, without waiting for it.
+    bool ended()
+    {
+        return waitpid(pid, nullptr, WNOHANG) != 0;
+    }
+
     void close()
     {
         in_filebuf->close();
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 83e6f63..19376e4 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -95,8 +95,23 @@ void BabeltraceTool::halt()
   {
     process_->close();
 
-    // Nuke the process, just to be sure we clean up correctly.
-    ::kill(process_->getPid(), SIGINT);
+    // Nuke the process, just to be sure we clean up correctly. Wait for it such that it doesn't remain as a zombie, and
+    // don't let it live on if it ignores the interrupt.
+    bool ended = process_->ended();
+    if (!ended)
+    {
+      ::kill(process_->getPid(), SIGINT);
+    }
+    for (int i = 0; i < 100 && !ended; i++)
+    {
+      std::this_thread::sleep_for(std::chrono::milliseconds(10));
+      ended = process_->ended();
+    }
+    if (!ended)
+    {
+      ::kill(process_->getPid(), SIGKILL);
+      process_->wait();
+    }
 
     process_ = nullptr;
   }
-- 
2.43.0


From 6ed1ede510a42792132e7bb8139b5c175baf1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 49/66] fix: BabeltraceTool discards the error output of
 babeltrace, which blocked once the unread pipe was full

---
 .../scalopus_tracing/subprocess.hpp           | 21 +++++++++++++------
 .../src/lttng/babeltrace_tool.cpp             |  6 ++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 6421052..47be2a1 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -15,6 +15,7 @@
 #include <cstdio>
 #include <system_error>
 
+#include <fcntl.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -26,12 +27,13 @@ class popen
 {   
 public:
 
-    popen(const std::string& cmd, std::vector<std::string> argv)
+    // If nothing is going to read the error output it has to be discarded, the process blocks when the pipe is full.
+    popen(const std::string& cmd, std::vector<std::string> argv, bool discard_stderr = false)
         : in_filebuf(nullptr), out_filebuf(nullptr), err_filebuf(nullptr), in_stream(nullptr), out_stream(nullptr), err_stream(nullptr)
     {
         if (pipe(in_pipe)  == -1 ||
             pipe(out_pipe) == -1 ||
-            pipe(err_pipe) == -1 )
+            (discard_stderr ? (err_pipe[WRITE] = ::open("/dev/null", O_WRONLY)) : pipe(err_pipe)) == -1 )
         {
             fail();
         }
@@ -74,7 +76,11 @@ public:
         return *out_stream;
     };
     
-    std::istream& stderr() { return *err_stream; };
+    std::istream& stderr()
+    {
+        if (err_stream == nullptr) throw std::system_error(EBADF, std::system_category());
+        return *err_stream;
+    };
    
     int wait()
     {
@@ -138,8 +144,11 @@ private:
             out_stream  = new std::istream(out_filebuf);
         }
         
-        err_filebuf = new __gnu_cxx::stdio_filebuf<char>(err_pipe[READ], std::ios_base::in, 1);
-        err_stream  = new std::istream(err_filebuf);
+        if (err_pipe[READ] != -1)
+        {
+            err_filebuf = new __gnu_cxx::stdio_filebuf<char>(err_pipe[READ], std::ios_base::in, 1);
+            err_stream  = new std::istream(err_filebuf);
+        }
     }
     
     // Closes what is open of the pipes and throws the current error.
@@ -167,7 +176,7 @@ private:
         ::close(in_pipe[WRITE]);
         if (out_pipe[READ] != -1) ::close(out_pipe[READ]);
         ::close(out_pipe[WRITE]);
-        ::close(err_pipe[READ]);        
+        if (err_pipe[READ] != -1) ::close(err_pipe[READ]);
         ::close(err_pipe[WRITE]);
         
         std::vector<raii_char_str> real_args(argv.begin(), argv.end());
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 19376e4..3cc5721 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -60,7 +60,8 @@ void BabeltraceTool::init(std::string path)
     process_ = std::make_shared<subprocess::popen>(
         "lttng",
         std::vector<std::string>{ "view", path, "-e",
-                                  "babeltrace --clock-seconds --clock-gmt --no-delta --input-format=lttng-live" });
+                                  "babeltrace --clock-seconds --clock-gmt --no-delta --input-format=lttng-live" },
+        true);
   }
   else
   {
@@ -68,7 +69,8 @@ void BabeltraceTool::init(std::string path)
     // net://localhost/host/eagle/scalopus_target_session
     process_ = std::make_shared<subprocess::popen>(
         "babeltrace",
-        std::vector<std::string>{ "--clock-seconds", "--clock-gmt", "--no-delta", "--input-format=lttng-live", path });
+        std::vector<std::string>{ "--clock-seconds", "--clock-gmt", "--no-delta", "--input-format=lttng-live", path },
+        true);
   }
 
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
-- 
2.43.0


From 3448c5f6af8abde100215c0f4ec27a60af890302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 50/66] fix: the late answer to a dropped request is not
 unsolicited data

---
 scalopus_transport/src/transport_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 1731c19..2bddb80 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -303,7 +303,7 @@ void TransportUnix::work()
         }
         ongoing_requests_.erase(request_it);  // remove the request promise from the map.
       }
-      else
+      else if (incoming.request_id == 0)  // Otherwise it is the late response to a request that was dropped.
       {
         // no active request for this outstanding. Hand it off to the endpoint with this name. No locks may be held
         // while doing so, the endpoint is allowed to use the transport.
-- 
2.43.0


From 6d32640342677bbe25af11e520bc3c8070c9bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 51/66] fix: discover lists the servers that answer when others
 fail to

---
 scalopus_python/scalopus/__main__.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/scalopus_python/scalopus/__main__.py b/scalopus_python/scalopus/__main__.py
index ea66901..315b214 100644
--- a/scalopus_python/scalopus/__main__.py
+++ b/scalopus_python/scalopus/__main__.py
@@ -92,17 +92,23 @@ def run_discover(args):
 
     entries = []
     for endpoint_map in endpoints.values():
-        data = {}
+        data = {"supported": []}
         for endpoint in endpoint_map.values():
-            if isinstance(endpoint, scalopus.general.EndpointProcessInfo):
-                pinfo = endpoint.processInfo()
-                data["pid"] = pinfo.pid
-                data["process_info"] = pinfo.to_dict()
-            if isinstance(endpoint, scalopus.general.EndpointIntrospect):
-                data["supported"] = endpoint.supported()
-        entries.append((data["pid"], data))
-
-    entries.sort()
+            # One server failing to answer should not affect the others.
+            try:
+                if isinstance(endpoint, scalopus.general.EndpointProcessInfo):
+                    pinfo = endpoint.processInfo()
+                    if pinfo.pid:  # It is zero if there was no answer.
+                        data["process_info"] = pinfo.to_dict()
+                        data["pid"] = pinfo.pid
+                if isinstance(endpoint, scalopus.general.EndpointIntrospect):
+                    data["supported"] = endpoint.supported()
+            except Exception as e:
+                print("Failed to retrieve information: {}".format(e), file=sys.stderr)
+        if "pid" in data:
+            entries.append((data["pid"], data))
+
+    entries.sort(key=lambda entry: entry[0])
 
     for _, data in entries:
         print("PID: {pid: >6d}  \"{name}\"".format(**data["process_info"]))
-- 
2.43.0


From 0a5559866bc5ef468c922bf119e4cb5d3d87f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 52/66] fix: trace_configure configures the servers that answer
 when others fail to

---
 scalopus_python/scalopus/__main__.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/scalopus_python/scalopus/__main__.py b/scalopus_python/scalopus/__main__.py
index 315b214..eecc174 100644
--- a/scalopus_python/scalopus/__main__.py
+++ b/scalopus_python/scalopus/__main__.py
@@ -185,10 +185,17 @@ def run_trace_configure(args):
         if not scalopus.tracing.EndpointTraceConfigurator.name in endpoint_map:
             continue
 
+        # One server failing to answer should not affect the others. The pid is zero if there was no answer.
         data = {}
-        pinfo = endpoint_map[scalopus.general.EndpointProcessInfo.name].processInfo()
-        data["pid"] = pinfo.pid
-        data["process_info"] = pinfo.to_dict()
+        try:
+            pinfo = endpoint_map[scalopus.general.EndpointProcessInfo.name].processInfo()
+            data["pid"] = pinfo.pid
+            data["process_info"] = pinfo.to_dict()
+        except Exception:
+            data["pid"] = 0
+        if not data["pid"]:
+            print("Failed to retrieve process info for transport: {}".format(transport.getAddress()))
+            continue
 
         new_state = scalopus.tracing.EndpointTraceConfigurator.TraceConfiguration()
 
@@ -204,14 +211,17 @@ def run_trace_configure(args):
             if thread_id in relevant_ids:
                 new_state.add_thread_entry(thread_id, new_trace_state)
 
-        state = endpoint_map[scalopus.tracing.EndpointTraceConfigurator.name].setTraceState(new_state)
+        try:
+            state = endpoint_map[scalopus.tracing.EndpointTraceConfigurator.name].setTraceState(new_state)
+        except Exception:
+            state = scalopus.tracing.EndpointTraceConfigurator.TraceConfiguration()
         if not state.cmd_success:
             print("Failed to retrieve state for transport: {}".format(transport.getAddress()))
             continue
         data["state"] = state.to_dict()
 
         entries.append((data["pid"], data))
-    entries.sort()
+    entries.sort(key=lambda entry: entry[0])
 
     def color_by_state(str, enabled):
         if enabled:
-- 
2.43.0


From 00f886cee4f7dc6a4b628343696fd58f8404b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 53/66] fix: record prints the events of one source when the
 other one fails

---
 scalopus_python/scalopus/__main__.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/scalopus_python/scalopus/__main__.py b/scalopus_python/scalopus/__main__.py
index eecc174..8dc30c2 100644
--- a/scalopus_python/scalopus/__main__.py
+++ b/scalopus_python/scalopus/__main__.py
@@ -150,16 +150,18 @@ def run_record(args):
 
     print('[')
 
-    try:
-        data = native_source.finishInterval()
-        data.extend(general_source.finishInterval())
-
-        # print(data) prints strings with ', but Chrome's Catapult viewer only accepts ".
-        # python3 is also needed, so strings don't start with u, and integers don't end with L.
-        # print(json.dumps(data)) gets the job done, but it prints everything in a single line.
-        print(*[json.dumps(entry) for entry in data], sep=',\n', end='')
-    except RuntimeError:
-        pass
+    data = []
+    for source in (native_source, general_source):
+        # One source failing should not lose the events of the other.
+        try:
+            data.extend(source.finishInterval())
+        except Exception as e:
+            print("Failed to finish the recording: {}".format(e), file=sys.stderr)
+
+    # print(data) prints strings with ', but Chrome's Catapult viewer only accepts ".
+    # python3 is also needed, so strings don't start with u, and integers don't end with L.
+    # print(json.dumps(data)) gets the job done, but it prints everything in a single line.
+    print(*[json.dumps(entry) for entry in data], sep=',\n', end='')
 
     print(']', end='')
 
-- 
2.43.0


From 4254b173ea97fdf2f530894fb97076f1ceb74907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 54/66] fix: the default exposer offers the trace configurator

---
 scalopus_python/scalopus/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_python/scalopus/common.py b/scalopus_python/scalopus/common.py
index 332c662..c8cbf56 100644
--- a/scalopus_python/scalopus/common.py
+++ b/scalopus_python/scalopus/common.py
@@ -48,4 +48,5 @@ class DefaultExposer(object):
         processinfo.setProcessName(process_name)
         self.server.addEndpoint(processinfo)
         self.server.addEndpoint(tracing.EndpointTraceMapping())
+        self.server.addEndpoint(tracing.EndpointTraceConfigurator())
         self.server.addEndpoint(tracing.EndpointNativeTraceSender())
-- 
2.43.0


From c844cc103315a0bfd7582d8257e45438d05d1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 55/66] fix: deeply nested BSON answers of a server are
 rejected as well

---
 .../include/scalopus_general/internal/bson_request.h          | 2 +-
 scalopus_general/src/endpoint_introspect.cpp                  | 3 ++-
 scalopus_general/src/endpoint_process_info.cpp                | 2 +-
 scalopus_tracing/src/endpoint_trace_configurator.cpp          | 4 ++--
 scalopus_tracing/src/endpoint_trace_mapping.cpp               | 3 ++-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/internal/bson_request.h b/scalopus_general/include/scalopus_general/internal/bson_request.h
index 8b3a401..cece7bd 100644
--- a/scalopus_general/include/scalopus_general/internal/bson_request.h
+++ b/scalopus_general/include/scalopus_general/internal/bson_request.h
@@ -114,7 +114,7 @@ inline nlohmann::json parseBsonRequest(const Data& request)
   NestingLimit limit;
   if (!nlohmann::json::sax_parse(request, &limit, nlohmann::json::input_format_t::bson))
   {
-    throw std::runtime_error("Request is not valid BSON, or is nested too deep.");
+    throw std::runtime_error("Data is not valid BSON, or is nested too deep.");
   }
   return nlohmann::json::from_bson(request);
 }
diff --git a/scalopus_general/src/endpoint_introspect.cpp b/scalopus_general/src/endpoint_introspect.cpp
index 8f9bd39..ca16015 100644
--- a/scalopus_general/src/endpoint_introspect.cpp
+++ b/scalopus_general/src/endpoint_introspect.cpp
@@ -28,6 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_general/endpoint_introspect.h"
+#include <scalopus_general/internal/bson_request.h>
 #include <scalopus_interface/transport.h>
 #include <nlohmann/json.hpp>
 
@@ -67,7 +68,7 @@ std::vector<std::string> EndpointIntrospect::supported()
   auto future_ptr = transport_->request(name, {});
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = internal::parseBsonRequest(future_ptr->get());  // This line may throw
     return jdata["endpoints"].get<std::vector<std::string>>();
   }
 
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 841dff4..c5b4da3 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -94,7 +94,7 @@ EndpointProcessInfo::ProcessInfo EndpointProcessInfo::processInfo()
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = internal::parseBsonRequest(future_ptr->get());  // This line may throw
     jdata["name"].get_to(info.name);
     jdata["threads"].get_to(info.threads);
     jdata["pid"].get_to(info.pid);
diff --git a/scalopus_tracing/src/endpoint_trace_configurator.cpp b/scalopus_tracing/src/endpoint_trace_configurator.cpp
index e606d85..e62259f 100644
--- a/scalopus_tracing/src/endpoint_trace_configurator.cpp
+++ b/scalopus_tracing/src/endpoint_trace_configurator.cpp
@@ -74,7 +74,7 @@ EndpointTraceConfigurator::setTraceState(const TraceConfiguration& state) const
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = internal::parseBsonRequest(future_ptr->get());  // This line may throw
     auto new_state = jdata.at("state").get<TraceConfiguration>();
     new_state.cmd_success = true;
     return new_state;
@@ -96,7 +96,7 @@ EndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTrac
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = internal::parseBsonRequest(future_ptr->get());  // This line may throw
     auto new_state = jdata.at("state").get<TraceConfiguration>();
     new_state.cmd_success = true;
     return new_state;
diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 4b266f9..2781a1c 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -27,6 +27,7 @@
   OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
+#include <scalopus_general/internal/bson_request.h>
 #include <scalopus_tracing/endpoint_trace_mapping.h>
 #include <scalopus_tracing/internal/static_string_tracker.h>
 #include <sys/types.h>
@@ -73,7 +74,7 @@ EndpointTraceMapping::ProcessTraceMap EndpointTraceMapping::mapping()
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
     ProcessTraceMap res;
-    json jdata = json::from_bson(future_ptr->get());
+    json jdata = internal::parseBsonRequest(future_ptr->get());
     jdata["mapping"].get_to(res);
     return res;
   }
-- 
2.43.0


From a5f8cff87bdff13d43c548e72d27774ea821ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 56/66] fix: TransportUnix, descriptor 0 is a descriptor like
 any other

---
 scalopus_transport/src/transport_unix.cpp | 22 +++++++++++-----------
 scalopus_transport/src/transport_unix.h   |  4 ++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 2bddb80..0ca84ae 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -54,7 +54,7 @@ bool TransportUnix::serve()
   if (server_fd_ == -1)
   {
     logger_("[TransportUnix] Could not create socket.");
-    server_fd_ = 0;
+    server_fd_ = -1;
     return false;
   }
 
@@ -76,7 +76,7 @@ bool TransportUnix::serve()
   {
     logger_("[TransportUnix] Could not bind socket.");
     ::close(server_fd_);
-    server_fd_ = 0;
+    server_fd_ = -1;
     return false;
   }
 
@@ -85,7 +85,7 @@ bool TransportUnix::serve()
   {
     logger_("[TransportUnix] Could not start listening for connections.");
     ::close(server_fd_);
-    server_fd_ = 0;
+    server_fd_ = -1;
     return false;
   }
   else
@@ -109,7 +109,7 @@ bool TransportUnix::connect(std::size_t pid)
   if (client_fd_ == -1)
   {
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
-    client_fd_ = 0;
+    client_fd_ = -1;
     return false;
   }
 
@@ -128,7 +128,7 @@ bool TransportUnix::connect(std::size_t pid)
   {
     logger_("[TransportUnix] Could not connect socket.");
     ::close(client_fd_);
-    client_fd_ = 0;
+    client_fd_ = -1;
     return false;
   }
   else
@@ -182,7 +182,7 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
 
 bool TransportUnix::isConnected() const
 {
-  return (client_fd_ != 0) || (server_fd_ != 0);
+  return (client_fd_ != -1) || (server_fd_ != -1);
 }
 
 std::vector<std::size_t> TransportUnix::getTransportServers()
@@ -266,7 +266,7 @@ void TransportUnix::work()
     }
 
     // Handle server stuff, accept new connection:
-    if (FD_ISSET(server_fd_, &read_fds))
+    if ((server_fd_ != -1) && FD_ISSET(server_fd_, &read_fds))
     {
       int client{ 0 };
       client = accept(server_fd_, nullptr, nullptr);
@@ -279,14 +279,14 @@ void TransportUnix::work()
     }
 
     // handle client readable:
-    if (FD_ISSET(client_fd_, &read_fds))
+    if ((client_fd_ != -1) && FD_ISSET(client_fd_, &read_fds))
     {
       protocol::Msg incoming;
       if (!protocol::receive(client_fd_, incoming))
       {
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
-        client_fd_ = 0;
+        client_fd_ = -1;
         break;
       }
 
@@ -332,7 +332,7 @@ void TransportUnix::work()
       }
     }
 
-    if (FD_ISSET(server_fd_, &except_fds))
+    if ((server_fd_ != -1) && FD_ISSET(server_fd_, &except_fds))
     {
       logger_("[TransportUnix] Exception on server ");
     }
@@ -447,7 +447,7 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
 
 Destination::Ptr TransportUnix::getAddress()
 {
-  if (server_fd_ != 0)
+  if (server_fd_ != -1)
   {
     return std::make_shared<DestinationUnix>(::getpid());
   }
diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index a4c973a..10881ae 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -86,8 +86,8 @@ private:
 
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
-  int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  std::atomic<int> client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  int server_fd_{ -1 };  //!< File descriptor from the server bind, -1 if there is none.
+  std::atomic<int> client_fd_{ -1 };  //!< File descriptor from connecting to a server, -1 if there is none.
   std::size_t client_pid_{ 0 };
 
   std::atomic<bool> running_{ false };  //!< Boolean to quit the worker thread.
-- 
2.43.0


From 275679efbe28ae18c8bb9d0befab9d95c644022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 57/66] fix: TransportUnix, sockets that do not fit in the sets
 of select are refused

---
 scalopus_transport/src/transport_unix.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0ca84ae..2a1fec6 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -58,6 +58,14 @@ bool TransportUnix::serve()
     return false;
   }
 
+  if (server_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Socket can't be used with select, too many files are open.");
+    ::close(server_fd_);
+    server_fd_ = -1;
+    return false;
+  }
+
   // Create the socket struct.
   struct sockaddr_un socket_config;
   std::memset(&socket_config, 0, sizeof(socket_config));
@@ -113,6 +121,14 @@ bool TransportUnix::connect(std::size_t pid)
     return false;
   }
 
+  if (client_fd_ >= FD_SETSIZE)
+  {
+    logger_("[TransportUnix] Socket can't be used with select, too many files are open.");
+    ::close(client_fd_);
+    client_fd_ = -1;
+    return false;
+  }
+
   // Create the socket struct.
   struct sockaddr_un socket_config;
   std::memset(&socket_config, 0, sizeof(socket_config));
@@ -275,6 +291,12 @@ void TransportUnix::work()
         logger_("[TransportUnix] Could not accept client.");
         continue;
       }
+      if (client >= FD_SETSIZE)
+      {
+        logger_("[TransportUnix] Client can't be used with select, too many files are open.");
+        ::close(client);
+        continue;
+      }
       connections_.insert(client);
     }
 
-- 
2.43.0


From 2f1bac48627f94dadffd59db8bdfea563e118d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 58/66] fix: TransportUnix, clients that are connected are
 served while others can not be accepted

---
 scalopus_transport/src/transport_unix.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 2a1fec6..287e3b9 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -288,16 +288,18 @@ void TransportUnix::work()
       client = accept(server_fd_, nullptr, nullptr);
       if (client == -1)
       {
+        // It remains in the queue, the clients that are connected should not have to wait for that.
         logger_("[TransportUnix] Could not accept client.");
-        continue;
       }
-      if (client >= FD_SETSIZE)
+      else if (client >= FD_SETSIZE)
       {
         logger_("[TransportUnix] Client can't be used with select, too many files are open.");
         ::close(client);
-        continue;
       }
-      connections_.insert(client);
+      else
+      {
+        connections_.insert(client);
+      }
     }
 
     // handle client readable:
-- 
2.43.0


From 0de76856d8fb650b838fd10333714afed262c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:01 +0000
Subject: [PATCH 59/66] fix: TransportUnix, programs started by the process do
 not inherit the sockets

---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 287e3b9..c7a1025 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -49,7 +49,7 @@ TransportUnix::TransportUnix()
 bool TransportUnix::serve()
 {
   // Create the server socket to work with.
-  server_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  server_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (server_fd_ == -1)
   {
@@ -112,7 +112,7 @@ bool TransportUnix::serve()
 
 bool TransportUnix::connect(std::size_t pid)
 {
-  client_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  client_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (client_fd_ == -1)
   {
@@ -285,7 +285,7 @@ void TransportUnix::work()
     if ((server_fd_ != -1) && FD_ISSET(server_fd_, &read_fds))
     {
       int client{ 0 };
-      client = accept(server_fd_, nullptr, nullptr);
+      client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
       if (client == -1)
       {
         // It remains in the queue, the clients that are connected should not have to wait for that.
-- 
2.43.0


From 8c21ed55a8dd9b59269a1e12a77035168062d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 60/66] fix: the protocol sends over descriptor 0 as well

---
 scalopus_transport/src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 038ddd6..971376c 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -162,7 +162,7 @@ static bool sendData(int fd, const void* data, size_t length)
 
 bool send(int fd, const Msg& outgoing)
 {
-  if (fd == 0)
+  if (fd == -1)
   {
     return false;
   }
-- 
2.43.0


From a54855e67de650683c97ed2a4faf7c2128d97ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:30 +0000
Subject: [PATCH 61/66] fix: subprocess, other processes do not inherit the
 pipes

---
 .../include_consumer/scalopus_tracing/subprocess.hpp  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 47be2a1..b28e228 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -31,9 +31,10 @@ public:
     popen(const std::string& cmd, std::vector<std::string> argv, bool discard_stderr = false)
         : in_filebuf(nullptr), out_filebuf(nullptr), err_filebuf(nullptr), in_stream(nullptr), out_stream(nullptr), err_stream(nullptr)
     {
-        if (pipe(in_pipe)  == -1 ||
-            pipe(out_pipe) == -1 ||
-            (discard_stderr ? (err_pipe[WRITE] = ::open("/dev/null", O_WRONLY)) : pipe(err_pipe)) == -1 )
+        // Other processes started by the program should not hold on to the ends of these.
+        if (pipe2(in_pipe, O_CLOEXEC)  == -1 ||
+            pipe2(out_pipe, O_CLOEXEC) == -1 ||
+            (discard_stderr ? (err_pipe[WRITE] = ::open("/dev/null", O_WRONLY | O_CLOEXEC)) : pipe2(err_pipe, O_CLOEXEC)) == -1 )
         {
             fail();
         }
@@ -48,8 +49,8 @@ public:
         out_pipe[READ]  = -1;
         out_pipe[WRITE] = filebuf->fd();
 
-        if (pipe(in_pipe) == -1 ||
-            pipe(err_pipe) == -1 )
+        if (pipe2(in_pipe, O_CLOEXEC) == -1 ||
+            pipe2(err_pipe, O_CLOEXEC) == -1 )
         {
             out_pipe[WRITE] = -1;  // not ours to close.
             fail();
-- 
2.43.0


From 2499a26696b56cccd7a948d38a90b7ad66ede5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:30 +0000
Subject: [PATCH 62/66] fix: subprocess, the process gets its streams if those
 of the program are closed

---
 .../include_consumer/scalopus_tracing/subprocess.hpp     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index b28e228..97784c5 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -165,6 +165,12 @@ private:
 
     void child(const std::vector<std::string>& argv)
     {  
+        // If the program closed its standard streams the pipes may have their numbers, prevent that they are overwritten.
+        for (int* fd : { &in_pipe[READ], &out_pipe[WRITE], &err_pipe[WRITE] })
+        {
+            if (*fd <= STDERR_FILENO) *fd = ::fcntl(*fd, F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+        }
+
         if (dup2(in_pipe[READ], STDIN_FILENO)    == -1 ||
             dup2(out_pipe[WRITE], STDOUT_FILENO) == -1 ||
             dup2(err_pipe[WRITE], STDERR_FILENO) == -1 )
@@ -174,10 +180,7 @@ private:
         }
 
         ::close(in_pipe[READ]);
-        ::close(in_pipe[WRITE]);
-        if (out_pipe[READ] != -1) ::close(out_pipe[READ]);
         ::close(out_pipe[WRITE]);
-        if (err_pipe[READ] != -1) ::close(err_pipe[READ]);
         ::close(err_pipe[WRITE]);
         
         std::vector<raii_char_str> real_args(argv.begin(), argv.end());
-- 
2.43.0


From 76d0110292cddc381d20287cfaa312d6fd28af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:30 +0000
Subject: [PATCH 63/66] fix: BabeltraceParser, the output may have any
 descriptor

---
 .../src/lttng/babeltrace_parser.cpp           | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index a670367..b6b7a30 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,7 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
-#include <sys/select.h>
+#include <poll.h>
 #include <unistd.h>
 #include <array>
 #include <iostream>
@@ -80,27 +80,14 @@ void BabeltraceParser::process(FILE* stdout)
   std::array<char, 1024> tmp;
   std::string pending;  // text after the last complete line.
   int fd = fileno(stdout);
-  fd_set read_fds;
-  fd_set write_fds;
-  fd_set except_fds;
-  FD_ZERO(&read_fds);
-  FD_ZERO(&write_fds);
-  FD_ZERO(&except_fds);
-  struct timeval tv;
+  struct pollfd poll_fd = { fd, POLLIN, 0 };  // not select, that can't handle every descriptor.
   while (processing_.load() && !halted_.load())  // while processing.
   {
-    tv.tv_sec = 0;
-    tv.tv_usec = 10000;
-    FD_SET(fd, &read_fds);
-    FD_SET(fd, &except_fds);
-
-    const int nfds = fd + 1;
-    int select_result = select(nfds, &read_fds, &write_fds, &except_fds, &tv);
-    if (select_result == -1)
+    if (::poll(&poll_fd, 1, 10) == -1)
     {
       continue;
     }
-    if (FD_ISSET(fd, &read_fds))
+    if (poll_fd.revents & (POLLIN | POLLHUP))
     {
       // Read what is available, without stdio as lines in its buffer are invisible to select.
       const ssize_t count = ::read(fd, tmp.data(), tmp.size());
@@ -143,7 +130,7 @@ void BabeltraceParser::process(FILE* stdout)
         processing_.store(false);
       }
     }
-    if (FD_ISSET(fd, &except_fds))
+    if (poll_fd.revents & (POLLERR | POLLNVAL))
     {
       log("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
       processing_.store(false);
-- 
2.43.0


From 460e913d71b40ea9fa2655c8406183ee0e6364f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 64/66] fix: the name of a socket does not depend on the locale
 of the program.

---
 scalopus_transport/src/transport_unix.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index c7a1025..cca7104 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -72,9 +72,8 @@ bool TransportUnix::serve()
   socket_config.sun_family = AF_UNIX;
 
   // Copy the desired unix domain socket name into the struct.
-  std::stringstream ss;
-  ss << "" << ::getpid() << "_scalopus";
-  std::strncpy(socket_config.sun_path + 1, ss.str().c_str(), sizeof(socket_config.sun_path) - 2);
+  const std::string path = std::to_string(::getpid()) + "_scalopus";
+  std::strncpy(socket_config.sun_path + 1, path.c_str(), sizeof(socket_config.sun_path) - 2);
 
   // Obtain the real path size such that we don't set a path that's too long.
   std::size_t path_length = sizeof(socket_config.sun_family) + strlen(socket_config.sun_path + 1) + 1;
@@ -134,9 +133,8 @@ bool TransportUnix::connect(std::size_t pid)
   std::memset(&socket_config, 0, sizeof(socket_config));
   socket_config.sun_family = AF_UNIX;
 
-  std::stringstream ss;
-  ss << "" << pid << "_scalopus";
-  std::strncpy(socket_config.sun_path + 1, ss.str().c_str(), sizeof(socket_config.sun_path) - 2);
+  const std::string path = std::to_string(pid) + "_scalopus";
+  std::strncpy(socket_config.sun_path + 1, path.c_str(), sizeof(socket_config.sun_path) - 2);
   client_pid_ = pid;
 
   std::size_t path_length = sizeof(socket_config.sun_family) + strlen(socket_config.sun_path + 1) + 1;
@@ -488,9 +486,7 @@ DestinationUnix::DestinationUnix(unsigned int pid) : pid_(pid)
 
 DestinationUnix::operator std::string() const
 {
-  std::stringstream ss;
-  ss << "<unix:" << pid_ << ">";
-  return ss.str();
+  return "<unix:" + std::to_string(pid_) + ">";
 }
 std::size_t DestinationUnix::hash_code() const
 {
-- 
2.43.0


From e8cad9ac8a822efee9753e9d4c03b419a23b8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 65/66] fix: the name of an unknown scope does not depend on
 the locale.

---
 scalopus_tracing/src/scope_tracing_provider.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index a3bf18a..f15a7a2 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -99,6 +99,7 @@ std::string ScopeTracingProvider::getScopeName(const ProcessTraceMap& mapping, c
     }
   }
   std::stringstream z;
+  z.imbue(std::locale::classic());  // the name must not depend on the locale of the program.
   z << "Unknown 0x" << std::hex << trace_id;
   return z.str();
 }
-- 
2.43.0


From d453ba7b55d6e66e5d065984134d86f3e788fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 66/66] fix: timestamps of lttng events are read the same in
 every locale.

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index 4b29b2a..f6b7aa7 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -29,10 +29,30 @@
 */
 #include "scalopus_tracing/ctfevent.h"
 
+#include <locale.h>
+#include <cerrno>
 #include <stdexcept>
 
 namespace scalopus
 {
+namespace
+{
+// The output of babeltrace always has a decimal point, regardless of the locale of the program.
+bool parseTimestamp(const std::string& text, double& value)
+{
+  static const locale_t classic = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0));
+  char* end = nullptr;
+  errno = 0;
+  const double parsed = strtod_l(text.c_str(), &end, classic);
+  if ((end == text.c_str()) || (errno == ERANGE))
+  {
+    return false;
+  }
+  value = parsed;
+  return true;
+}
+}  // namespace
+
 CTFEvent::CTFEvent(std::string line)
 {
   // Line we are matching is:
@@ -57,11 +77,7 @@ CTFEvent::CTFEvent(std::string line)
     return;
   }
   std::string timestamp_str = line.substr(start_pos + 1, end_pos - 1);
-  try
-  {
-    timestamp_ = std::stod(timestamp_str);
-  }
-  catch (const std::logic_error&)  // std::invalid_argument or std::out_of_range.
+  if (!parseTimestamp(timestamp_str, timestamp_))
   {
     return;
   }
-- 
2.43.0

