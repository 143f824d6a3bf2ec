From edc7b535b05e5a8195727da26a90b3ef64d920d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 01/43] fix: keep reading after a short read instead of
 accepting a truncated message

readData() left its loop and reported success when the kernel returned fewer
bytes than requested without filling a chunk, handing out a truncated field.
---
 scalopus_transport/src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 0ecaeb0..394a678 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -84,7 +84,7 @@ bool readData(int fd, size_t length, Data& incoming)
       // end of file.
       return false;
     }
-    break;
+    // The kernel may hand out less than was asked for, read on until everything is received.
   }
   return true;
 }
-- 
2.43.0


From 341b4b0db6b53da9f5ab22f753b056389f17f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 02/43] fix: refuse messages that do not fit the length fields
 of the protocol

The endpoint name and payload sizes were truncated to 16 and 32 bits, after
which the stream was misinterpreted by the receiver.
---
 scalopus_transport/src/protocol.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 394a678..9eb6fbf 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -36,6 +36,7 @@
 #include <array>
 #include <cstring>
 #include <iostream>
+#include <limits>
 
 namespace scalopus
 {
@@ -158,6 +159,12 @@ bool send(int fd, const Msg& outgoing)
   {
     return false;
   }
+  // Refuse what can't be represented in the length fields, before anything is written.
+  if ((outgoing.endpoint.size() > std::numeric_limits<uint16_t>::max()) ||
+      (outgoing.data.size() > std::numeric_limits<uint32_t>::max()))
+  {
+    return false;
+  }
   uint16_t length_endpoint_name = static_cast<uint16_t>(outgoing.endpoint.size());
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
-- 
2.43.0


From 7a2d929d3b4596fb87d6558c8a410bd61def361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 03/43] fix: continue partial socket writes so a message is
 never cut short

A send interrupted by a signal may accept only part of the data; send() then
returned false with half a message on the stream and every later message on
that connection was misframed.
---
 scalopus_transport/src/protocol.cpp | 35 ++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 9eb6fbf..0d75637 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -34,6 +34,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <array>
+#include <cerrno>
 #include <cstring>
 #include <iostream>
 #include <limits>
@@ -153,6 +154,30 @@ bool receive(int fd, Msg& incoming)
   return false;
 }
 
+/**
+ * @brief Write the entire block to the socket, the kernel may accept it in several parts.
+ * @return The number of bytes written, -1 if an error occured.
+ */
+static ssize_t sendData(int fd, const void* data, size_t length)
+{
+  const auto bytes = static_cast<const char*>(data);
+  size_t sent{ 0 };
+  while (sent < length)
+  {
+    const ssize_t chunk_sent = ::send(fd, bytes + sent, length - sent, MSG_NOSIGNAL);
+    if (chunk_sent == -1)
+    {
+      if (errno == EINTR)
+      {
+        continue;  // Interrupted by a signal before anything was written.
+      }
+      return -1;
+    }
+    sent += static_cast<size_t>(chunk_sent);
+  }
+  return static_cast<ssize_t>(sent);
+}
+
 bool send(int fd, const Msg& outgoing)
 {
   if (fd == 0)
@@ -169,34 +194,34 @@ bool send(int fd, const Msg& outgoing)
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
   // Send request id.
-  if (::send(fd, &outgoing.request_id, sizeof(outgoing.request_id), MSG_NOSIGNAL) !=
+  if (sendData(fd, &outgoing.request_id, sizeof(outgoing.request_id)) !=
       static_cast<ssize_t>(sizeof(outgoing.request_id)))
   {
     return false;
   }
 
   // Send endpoint length
-  if (::send(fd, &length_endpoint_name, sizeof(length_endpoint_name), MSG_NOSIGNAL) !=
+  if (sendData(fd, &length_endpoint_name, sizeof(length_endpoint_name)) !=
       static_cast<ssize_t>(sizeof(length_endpoint_name)))
   {
     return false;
   }
 
   // Send endpoint name.
-  if (::send(fd, outgoing.endpoint.data(), length_endpoint_name, MSG_NOSIGNAL) !=
+  if (sendData(fd, outgoing.endpoint.data(), length_endpoint_name) !=
       static_cast<ssize_t>(length_endpoint_name))
   {
     return false;
   }
 
   // Send data length
-  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))
+  if (sendData(fd, &length_data, sizeof(length_data)) != static_cast<ssize_t>(sizeof(length_data)))
   {
     return false;
   }
 
   // Send data
-  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
+  if (sendData(fd, outgoing.data.data(), outgoing.data.size()) !=
       static_cast<ssize_t>(outgoing.data.size()))
   {
     return false;
-- 
2.43.0


From 420f62b2c433387154e2897825724c0edae3d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 04/43] fix: register a request before sending it

A response received by the worker thread before request() had stored the
promise was not recognised as the response and the future never resolved.
---
 scalopus_transport/src/transport_unix.cpp | 25 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0b3564c..fcb4d37 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -146,18 +146,29 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   auto promise = std::promise<Data>();
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
+  {
+    // Store the promise in the map before sending, the response can arrive before send returns.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
+  }
+
+  bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    if (!protocol::send(client_fd_, outgoing_msg))
+    sent = protocol::send(client_fd_, outgoing_msg);
+  }
+
+  if (!sent)
+  {
+    // The request is not going to be answered, fail it unless that already happened.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    auto request_it = ongoing_requests_.find({ remote_endpoint_name, request_id });
+    if (request_it != ongoing_requests_.end())
     {
-      promise.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
-      return response;
+      request_it->second.first.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
+      ongoing_requests_.erase(request_it);
     }
   }
-
-  // Send succeeded, store the promise in the map, its result should be pending.
-  std::lock_guard<std::mutex> lock(request_lock_);
-  ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
   return response;
 }
 
-- 
2.43.0


From 8171ed4e0259015d3890a2cffc1fb8dae4df960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 05/43] fix: fail outstanding requests when the connection is
 lost

After a failed receive the partially read message was still processed as if it
were complete, the outstanding requests were never resolved.
---
 scalopus_transport/src/transport_unix.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index fcb4d37..aa8b426 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -277,6 +277,15 @@ void TransportUnix::work()
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
         client_fd_ = 0;
+
+        // Nothing will be answered anymore, fail the outstanding requests.
+        std::lock_guard<std::mutex> lock(request_lock_);
+        for (auto& request : ongoing_requests_)
+        {
+          request.second.first.set_exception(std::make_exception_ptr(communication_error("Connection was lost.")));
+        }
+        ongoing_requests_.clear();
+        break;
       }
 
       // lock the requests map.
-- 
2.43.0


From 3301331b2ea87e300fe64a3e05aa70f6ed01e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 06/43] fix: make the flags shared with the unix transport
 worker atomic

running_ and client_fd_ are written and read from both the worker and the
calling threads without synchronisation.
---
 scalopus_transport/src/transport_unix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index 04fd730..f09fe95 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -31,6 +31,7 @@
 #define SCALOPUS_TRANSPORT_TRANSPORT_UNIX_INTERNAL_H
 
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <set>
@@ -86,10 +87,10 @@ private:
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
   int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  std::atomic_int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
   std::size_t client_pid_{ 0 };
 
-  bool running_{ false };  //!< Boolean to quit the worker thread.
+  std::atomic_bool running_{ false };  //!< Boolean to quit the worker thread.
 
   std::set<int> connections_;  //!< Open connections, also holds server_fd_ and client_fd_.
 
-- 
2.43.0


From 6341d531dec950e36f4a4f982c6b6b7b59373780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 07/43] fix: don't join a worker thread that was never started

Destroying a TransportUnix whose serve() or connect() failed, which happens in
the factory, called std::thread::join on a non-joinable thread.
---
 scalopus_transport/src/transport_unix.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index aa8b426..e03b745 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -216,7 +216,10 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  thread_.join();
+  if (thread_.joinable())
+  {
+    thread_.join();
+  }
 
   // Then clean up all the connections.
   for (const auto& connection : connections_)
-- 
2.43.0


From 4c896047cd0716f77b02f79f0bc286de5c729aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 08/43] fix: close the socket when serving or connecting fails

The descriptor leaked and the transport still reported itself as connected.
---
 scalopus_transport/src/transport_unix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index e03b745..04f3e2c 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -53,6 +53,7 @@ bool TransportUnix::serve()
 
   if (server_fd_ == -1)
   {
+    server_fd_ = 0;
     logger_("[TransportUnix] Could not create socket.");
     return false;
   }
@@ -73,6 +74,8 @@ bool TransportUnix::serve()
   // Bind the unix socket on the path we created.
   if (bind(server_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
+    ::close(server_fd_);
+    server_fd_ = 0;
     logger_("[TransportUnix] Could not bind socket.");
     return false;
   }
@@ -80,6 +83,8 @@ bool TransportUnix::serve()
   // Listen for connections, with a queue of five.
   if (listen(server_fd_, 5) == -1)
   {
+    ::close(server_fd_);
+    server_fd_ = 0;
     logger_("[TransportUnix] Could not start listening for connections.");
     return false;
   }
@@ -103,6 +108,7 @@ bool TransportUnix::connect(std::size_t pid)
 
   if (client_fd_ == -1)
   {
+    client_fd_ = 0;
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
     return false;
   }
@@ -120,6 +126,8 @@ bool TransportUnix::connect(std::size_t pid)
   std::size_t path_length = sizeof(socket_config.sun_family) + strlen(socket_config.sun_path + 1) + 1;
   if (::connect(client_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
+    ::close(client_fd_);
+    client_fd_ = 0;
     logger_("[TransportUnix] Could not connect socket.");
     return false;
   }
-- 
2.43.0


From cb5dc265a3ae85991d465f937a75d4753b54b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 09/43] fix: never touch a descriptor after closing it

The connections were shut down after they were closed, and could be closed a
second time if select also flagged an exceptional condition. The number may by
then belong to an unrelated file of the process.
---
 scalopus_transport/src/transport_unix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 04f3e2c..bcef3ea 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -232,8 +232,8 @@ TransportUnix::~TransportUnix()
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-    ::close(connection);
     ::shutdown(connection, 2);
+    ::close(connection);
   }
 }
 
@@ -362,16 +362,17 @@ void TransportUnix::work()
         }
         else
         {
-          ::close(connection);
           ::shutdown(connection, 2);
+          ::close(connection);
           connections_.erase(connection);
+          continue;
         }
       }
 
       if (FD_ISSET(connection, &except_fds))
       {
-        ::close(connection);
         ::shutdown(connection, 2);
+        ::close(connection);
         connections_.erase(connection);
       }
     }
-- 
2.43.0


From 841715f3ecc6e26835855b060ef2a23f8947b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 10/43] fix: invoke endpoints without holding transport locks
 and contain their exceptions

An unsolicited handler that used the transport deadlocked on request_lock_ or
endpoint_mutex_, the endpoint table was read without its lock when handling
requests, and an exception from an endpoint terminated the process.
---
 scalopus_transport/src/transport_unix.cpp | 39 ++++++++++++++++-------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index bcef3ea..1543ad1 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -300,7 +300,7 @@ void TransportUnix::work()
       }
 
       // lock the requests map.
-      std::lock_guard<std::mutex> lock(request_lock_);
+      std::unique_lock<std::mutex> lock(request_lock_);
       // Try to find a promise for the message we just received.
       auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });
       if (request_it != ongoing_requests_.end())
@@ -314,16 +314,25 @@ void TransportUnix::work()
       }
       else
       {
-        // no active request for this outstanding. Hand it off to the endpoint with this name.
-        std::lock_guard<std::mutex> elock(endpoint_mutex_);
-        const auto it = endpoints_.find(incoming.endpoint);
-        if (it != endpoints_.end())
+        // no active request for this outstanding. Hand it off to the endpoint with this name, without holding locks
+        // since the endpoint may use this transport.
+        lock.unlock();
+        const auto endpoint = getEndpoint(incoming.endpoint);
+        if (endpoint != nullptr)
         {
           protocol::Msg response;
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
-          Data outgoing;
-          if (it->second->unsolicited(*this, incoming.data, response.data))
+          bool respond{ false };
+          try
+          {
+            respond = endpoint->unsolicited(*this, incoming.data, response.data);
+          }
+          catch (...)
+          {
+            logger_("[TransportUnix] Endpoint " + incoming.endpoint + " failed on unsolicited data.");
+          }
+          if (respond)
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
@@ -426,12 +435,18 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   response.endpoint = request.endpoint;
   response.request_id = request.request_id;
   // Check if we have this endpoint.
-  const auto it = endpoints_.find(request.endpoint);
-  if (it != endpoints_.end())
+  const auto endpoint = getEndpoint(request.endpoint);
+  if (endpoint != nullptr)
   {
-    Data outgoing;
-    // Let the endpoint handle the data and if necessary respond.
-    return it->second->handle(*this, request.data, response.data);
+    try
+    {
+      // Let the endpoint handle the data and if necessary respond.
+      return endpoint->handle(*this, request.data, response.data);
+    }
+    catch (...)
+    {
+      logger_("[TransportUnix] Endpoint " + request.endpoint + " failed to handle a request.");
+    }
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 8abb67b66dc56074be257ae874d3408461ba9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 11/43] fix: don't throw on sockets with a newline in their
 name during discovery

Any process can bind such a socket, discovery then threw std::out_of_range.
---
 scalopus_transport/src/transport_unix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 1543ad1..c5f2de4 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -206,6 +206,10 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
       const auto space_before_path = line.rfind(" ");
       const auto path = line.substr(space_before_path + 2);  // + 2 for space and @ symbol.
       const auto space_before_inode = line.rfind(" ", space_before_path - 1);
+      if ((space_before_path == std::string::npos) || (space_before_inode == std::string::npos))
+      {
+        continue;  // not an entry of the table, socket names may contain newlines.
+      }
       const auto inode_str = line.substr(space_before_inode, space_before_path - space_before_inode);
       if (std::atoi(inode_str.c_str()) == 0)
       {
-- 
2.43.0


From 6a5e7962da9398dcdd398958ba96f45afa5852c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 12/43] fix: deliver broadcasts in the order they were queued

popBroadcast() took the most recent message first.
---
 scalopus_interface/src/transport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index c18845c..9f5edbb 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -45,8 +45,8 @@ void Transport::broadcast(const std::string& remote_endpoint_name, const Data& o
 std::pair<std::string, Data> Transport::popBroadcast()
 {
   std::lock_guard<std::mutex> lock(broadcast_message_mutex_);
-  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.back());
-  broadcast_messages_.pop_back();
+  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());
+  broadcast_messages_.erase(broadcast_messages_.begin());
   return tmp;
 }
 
-- 
2.43.0


From 94216556e828e498a10a37239f7e298190ed5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 13/43] fix: set up the loopback transport before starting its
 worker

server_ was assigned while the worker thread was already running and running_
was accessed by both threads without synchronisation.
---
 scalopus_transport/src/transport_loopback.cpp | 9 ++++-----
 scalopus_transport/src/transport_loopback.h   | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 416edc5..2bf7aa4 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -32,10 +32,8 @@
 
 namespace scalopus
 {
-TransportLoopback::TransportLoopback()
+TransportLoopback::TransportLoopback() : TransportLoopback{ Ptr{} }
 {
-  running_ = true;
-  thread_ = std::thread([&]() { work(); });
 }
 
 TransportLoopback::~TransportLoopback()
@@ -44,9 +42,10 @@ TransportLoopback::~TransportLoopback()
   thread_.join();
 }
 
-TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
+TransportLoopback::TransportLoopback(Ptr server) : server_{ server }
 {
-  server_ = server;
+  running_ = true;
+  thread_ = std::thread([&]() { work(); });
 }
 
 void TransportLoopback::addClient(Transport::WeakPtr client)
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index bed74be..984132d 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport_factory.h>
 #include <scalopus_transport/transport_loopback.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <memory>
@@ -87,7 +88,7 @@ private:
    */
   void work();
 
-  bool running_{ true };  //!< Bool to stop the worker loop.
+  std::atomic_bool running_{ true };  //!< Bool to stop the worker loop.
   std::thread thread_;    //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
-- 
2.43.0


From 2e08a29655fd57c62e2e9a03d8ae9913702ab658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 14/43] fix: guard the client list of the loopback transport

Clients are added by the connecting thread while the worker iterates over them.
---
 scalopus_transport/src/transport_loopback.cpp | 8 +++++++-
 scalopus_transport/src/transport_loopback.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 2bf7aa4..e873f5c 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -50,6 +50,7 @@ TransportLoopback::TransportLoopback(Ptr server) : server_{ server }
 
 void TransportLoopback::addClient(Transport::WeakPtr client)
 {
+  std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
   clients_.push_back(client);
 }
 
@@ -122,7 +123,12 @@ void TransportLoopback::work()
         auto broadcast = Transport::popBroadcast();
         const auto& remote_endpoint_name = broadcast.first;
         const auto& outgoing = broadcast.second;
-        for (auto weak_client : clients_)
+        decltype(clients_) clients;
+        {
+          std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
+          clients = clients_;
+        }
+        for (auto weak_client : clients)
         {
           auto client = weak_client.lock();
           if (client != nullptr)
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 984132d..bd9e72e 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -82,6 +82,7 @@ private:
   Ptr server_;  //!< If populated this is the server the client is connected to.
 
   std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
+  mutable std::mutex clients_lock_;          //!< Lock to guard the list of clients.
 
   /**
    * @brief Function in which we server the ongoing requests and broadcasts.
-- 
2.43.0


From 3223f214fa83cae967b1a155cb31d22c1de925de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 15/43] fix: call endpoints of the loopback transport without
 holding its lock

An endpoint that used the transport while handling a request deadlocked.
---
 scalopus_transport/src/transport_loopback.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index e873f5c..c40da6e 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -84,8 +84,13 @@ void TransportLoopback::work()
   {
     // First, server any requests that are pending.
     {
-      std::lock_guard<decltype(request_lock_)> lock(request_lock_);
-      for (auto& req : ongoing_requests_)
+      // Take the requests from the list, the endpoints are called without holding the lock.
+      decltype(ongoing_requests_) requests;
+      {
+        std::lock_guard<decltype(request_lock_)> lock(request_lock_);
+        requests.swap(ongoing_requests_);
+      }
+      for (auto& req : requests)
       {
         const auto& remote_endpoint_name = std::get<0>(req);
         const auto& outgoing = std::get<1>(req);
@@ -113,7 +118,6 @@ void TransportLoopback::work()
           promise.set_value(resp);
         }
       }
-      ongoing_requests_.clear();  // We processed all requests, we can clear them.
     }
 
     // Secondly, we server all the broadcasts
-- 
2.43.0


From 88395c9ac8f3739a26e237d8209a1a0a614700ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 16/43] fix: don't crash the loopback worker on unknown
 endpoints or throwing endpoints

A request for an endpoint the server doesn't have, a request on the server
itself, a response to unsolicited data or an exception from an endpoint ended
the process.
---
 scalopus_transport/src/transport_loopback.cpp | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index c40da6e..54e5ff9 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -102,20 +102,28 @@ void TransportLoopback::work()
         }
 
         // get the appropriate endpoint from the server.
-        auto endpoint = server_->getEndpoint(remote_endpoint_name);
+        auto endpoint = (server_ != nullptr) ? server_->getEndpoint(remote_endpoint_name) : nullptr;
 
         // If the endpoint doesn't exist on the remote end, throw
         if (endpoint == nullptr)
         {
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+          continue;
         }
 
-        Data resp;
-        auto res = endpoint->handle(*server_, outgoing, resp);
-        if (res)
+        try
         {
-          promise.set_value(resp);
+          Data resp;
+          auto res = endpoint->handle(*server_, outgoing, resp);
+          if (res)
+          {
+            promise.set_value(resp);
+          }
+        }
+        catch (...)
+        {
+          promise.set_exception(std::current_exception());
         }
       }
     }
@@ -140,16 +148,24 @@ void TransportLoopback::work()
             auto endpoint = client->getEndpoint(remote_endpoint_name);
             if (endpoint != nullptr)
             {
-              Data resp;
-              if (endpoint->unsolicited(*client, outgoing, resp))
+              try
               {
-                Data resp2;
-                if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
+                Data resp;
+                if (endpoint->unsolicited(*client, outgoing, resp))
                 {
-                  // We stop here... This is slightly different than a real transport... but works for now.
-                  throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
+                  Data resp2;
+                  auto own_endpoint = getEndpoint(remote_endpoint_name);
+                  if ((own_endpoint != nullptr) && own_endpoint->handle(*client, resp, resp2))
+                  {
+                    // We stop here... This is slightly different than a real transport... but works for now.
+                    logger_("The TransportLoopback does not handle responses on unsolicited data.");
+                  }
                 }
               }
+              catch (...)
+              {
+                logger_("[TransportLoopback] Endpoint " + remote_endpoint_name + " failed on unsolicited data.");
+              }
             }
           }
         }
-- 
2.43.0


From 184427cc49356d5a900de8e218e2a2e92bb33d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 17/43] fix: skip destinations the transport factory can't
 connect to

TransportFactory::connect returns a nullptr on failure, it was dereferenced.
---
 scalopus_general/src/endpoint_manager_poll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 465f890..849ceea 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -84,7 +84,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   log("[scalopus] Creating transport to: " + std::string(*destination));
   // Attempt to make a transport to this server.
   auto transport = factory_->connect(destination);
-  if (!transport->isConnected())
+  if ((transport == nullptr) || !transport->isConnected())
   {
     log("[scalopus] Client failed to connect to " + std::string(*destination));
     return;
-- 
2.43.0


From 8631631b2bab6508634d68bf785701f799162f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 18/43] fix: don't let failing discovery or remotes end the
 polling thread

The introspection request throws if the connection is lost or the response
can't be decoded, this terminated the process.
---
 .../src/endpoint_manager_poll.cpp             | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 849ceea..f61b862 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -71,7 +71,21 @@ void EndpointManagerPoll::manage()
   const auto providers = factory_->discover();
   for (const auto& destination : providers)
   {
-    connect(destination);
+    try
+    {
+      connect(destination);
+    }
+    catch (...)
+    {
+      // Setting up the endpoints failed, forget about this connection, the others are not affected.
+      log("[scalopus] Failed to set up the endpoints of " + std::string(*destination));
+      const auto it = transports_.find(destination->hash_code());
+      if (it != transports_.end())
+      {
+        transport_endpoints_.erase(it->second);
+        transports_.erase(it);
+      }
+    }
   }
 }
 
@@ -141,7 +155,14 @@ void EndpointManagerPoll::work()
 {
   while (is_polling_)
   {
-    manage();
+    try
+    {
+      manage();
+    }
+    catch (...)
+    {
+      log("[scalopus] Discovery failed.");
+    }
     std::this_thread::sleep_for(std::chrono::duration<double>(poll_interval_));
   }
 }
-- 
2.43.0


From 45790de687947aa54970b4cf120bf382e201f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 19/43] fix: make the flag that stops the polling thread atomic

---
 .../include_consumer/scalopus_general/endpoint_manager_poll.h  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index edf10f0..7097340 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -33,6 +33,7 @@
 #include <scalopus_interface/endpoint_manager.h>
 #include <scalopus_interface/trace_event_provider.h>
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
@@ -109,7 +110,7 @@ private:
 
   TransportFactory::Ptr factory_;  //!< The transport factory to use to discover and create connections.
 
-  bool is_polling_{ false };     //!< Should the worker thread continue polling?
+  std::atomic_bool is_polling_{ false };  //!< Should the worker thread continue polling?
   double poll_interval_{ 1.0 };  //!< The poll interval in seconds.
   std::thread thread_;           //!< Thread in which the polling takes place.
   void work();                   //!< Function in which the work the poller does takes place.
-- 
2.43.0


From b9de238c3f9fba1d7ad3f07325fac4ec1879f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 20/43] fix: don't use uninitialised process information if a
 process doesn't answer

The pid was left uninitialised on a timeout and used as key in the mapping.
---
 .../include/scalopus_general/endpoint_process_info.h          | 2 +-
 scalopus_general/src/general_provider.cpp                     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 6662112..2adc51e 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -50,7 +50,7 @@ public:
   {
     std::string name;                              //!< Name of this process.
     std::map<unsigned long, std::string> threads;  //!< Names of the threads in this process.
-    int pid;                                       //!< Process id.
+    int pid{ 0 };                                  //!< Process id, zero if not obtained.
   };
 
   /**
diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index 358af25..b800212 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -62,6 +62,10 @@ void GeneralProvider::updateMapping()
     if (endpoint_general != nullptr)
     {
       const auto process_mapping = endpoint_general->processInfo();
+      if (process_mapping.pid == 0)
+      {
+        continue;  // The process did not answer in time.
+      }
       mapping_[process_mapping.pid] = process_mapping;
     }
   }
-- 
2.43.0


From 3e194421a7098970560ac4ceebe0189aeb43f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 21/43] fix: guard the process name that is read by the
 transport thread

---
 .../include/scalopus_general/endpoint_process_info.h      | 4 +++-
 scalopus_general/src/endpoint_process_info.cpp            | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 2adc51e..e150fe3 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport.h>
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace scalopus
@@ -80,7 +81,8 @@ public:
   bool handle(Transport& server, const Data& request, Data& response);
 
 private:
-  ProcessInfo info_;  //!< The process info.
+  ProcessInfo info_;               //!< The process info.
+  mutable std::mutex info_mutex_;  //!< Guards the process info.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 53eb6fc..bb68e06 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -54,6 +54,7 @@ EndpointProcessInfo::EndpointProcessInfo()
 
 void EndpointProcessInfo::setProcessName(const std::string& process_name)
 {
+  std::lock_guard<std::mutex> lock(info_mutex_);
   info_.name = process_name;
 }
 
@@ -65,8 +66,11 @@ bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, D
   if (req["cmd"].get<std::string>() == "info")
   {
     json jdata = json::object();
-    jdata["pid"] = info_.pid;
-    jdata["name"] = info_.name;
+    {
+      std::lock_guard<std::mutex> lock(info_mutex_);
+      jdata["pid"] = info_.pid;
+      jdata["name"] = info_.name;
+    }
     jdata["threads"] = scalopus::ThreadNameTracker::getInstance().getMap();
     response = json::to_bson(jdata);
     return true;
-- 
2.43.0


From 0c514ffcf6afa7cbd4d9bf507a21834bca14113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 22/43] fix: don't read from an empty trace mapping request

---
 scalopus_tracing/src/endpoint_trace_mapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 100897b..4b266f9 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -51,7 +51,7 @@ bool EndpointTraceMapping::handle(Transport& /* server */, const Data& request,
   ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };
   // cool, we have the mappings... now we need to serialize this...
 
-  if (request.front() == 'm')
+  if (!request.empty() && request.front() == 'm')
   {
     json jdata = json::object();
     jdata["mapping"] = mapping;  // need to serialize an object, not an array.
-- 
2.43.0


From 209fd11640944a02e2ab95c9b801e2e9301dd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 23/43] fix: handle numbers that don't fit and missing
 timestamps when parsing events

std::out_of_range escaped from the parser thread for values that are too large
and the timestamp was uninitialised if it could not be parsed.
---
 .../include_consumer/scalopus_tracing/ctfevent.h           | 2 +-
 scalopus_tracing/src/lttng/ctfevent.cpp                    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
index 64d7e33..b5bee39 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
@@ -94,7 +94,7 @@ public:
 private:
   std::string line_;  //! Original line from babeltrace.
 
-  double timestamp_;               //! Timestamp of this event.
+  double timestamp_{ 0.0 };        //! Timestamp of this event.
   std::string hostname_;           //! Hostname this event originated from.
   std::string tracepoint_domain_;  //! Tracepoint domain of this event.
   std::string tracepoint_name_;    //! Tracepoint name of this event.
diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index a7633f5..1c57f09 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -63,6 +63,10 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
+  catch (const std::out_of_range&)
+  {
+    return;
+  }
 
   // Go for the hostname, this is the first thing between spaces.
   start_pos = end_pos;
@@ -166,6 +170,9 @@ CTFEvent::CTFEvent(std::string line)
       catch (const std::invalid_argument&)
       {
       }
+      catch (const std::out_of_range&)
+      {
+      }
     }
     return res;
   };
-- 
2.43.0


From 3abdaaf9f6aef1d6f4ff2991173efdbb739c1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 24/43] fix: synchronise disabling an event callback with the
 parser calling it

The parser thread could be using the callback, and the source that registered
it, while it was reset by another thread.
---
 .../include_consumer/scalopus_tracing/babeltrace_parser.h | 2 ++
 scalopus_tracing/src/lttng/babeltrace_parser.cpp          | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index e9ee4ec..b5fe568 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -54,9 +54,11 @@ public:
   {
     bool active{ true };
     std::function<void(const CTFEvent& event)> callback;
+    std::mutex mutex;  //!< Guards the members, the callback is not called anymore after disable() returned.
 
     void disable()
     {
+      std::lock_guard<std::mutex> lock(mutex);
       active = false;
       callback = nullptr;
     }
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 4928765..54f9b6b 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -99,7 +99,9 @@ void BabeltraceParser::process(FILE* stdout)
           auto event = parse(line);
           for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
           {
-            if ((*it)->active == false)
+            const auto session = *it;
+            std::lock_guard<std::mutex> session_lock(session->mutex);
+            if (session->active == false)
             {
               // session went inactive, remove it.
               std::stringstream ss;
@@ -108,9 +110,9 @@ void BabeltraceParser::process(FILE* stdout)
               it = sessions_recording_.erase(it);
               continue;
             }
-            if ((*it)->callback)
+            if (session->callback)
             {
-              (*it)->callback(event);
+              session->callback(event);
             }
             it++;
           }
-- 
2.43.0


From 936f6c72c76b9ee535a66c1ff8c5ad3abb5a295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 25/43] fix: halting the parser before its thread got to run is
 not forgotten

process() set processing_ again, after which halt() waited forever for the
thread if the viewer didn't exit by itself.
---
 .../scalopus_tracing/babeltrace_parser.h                 | 9 ++++++++-
 scalopus_tracing/src/lttng/babeltrace_parser.cpp         | 8 +++++++-
 scalopus_tracing/src/lttng/babeltrace_tool.cpp           | 1 +
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index b5fe568..6fa57a4 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -80,10 +80,16 @@ public:
   bool isProcessing();
 
   /**
-   * @brief Causes the loop in process to be broken, allowing return from that function.
+   * @brief Causes the loop in process to be broken, allowing return from that function. This also holds if process is
+   *        yet to be called.
    */
   void halt();
 
+  /**
+   * @brief Allow processing again after halt was called.
+   */
+  void reset();
+
   /**
    * @brief Set the logging function to use.
    */
@@ -102,6 +108,7 @@ public:
 
 private:
   std::atomic_bool processing_{ false };  //! Bool to check on each while loop in the process function.
+  std::atomic_bool halted_{ false };      //! Bool to denote processing should not be done anymore.
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
   std::set<std::shared_ptr<EventCallback>> sessions_recording_;  //! Set of sessions that are actively recording.
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 54f9b6b..27ffaac 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -69,7 +69,7 @@ void BabeltraceParser::process(FILE* stdout)
   FD_ZERO(&write_fds);
   FD_ZERO(&except_fds);
   struct timeval tv;
-  while (processing_.load())  // while processing.
+  while (processing_.load() && !halted_.load())  // while processing.
   {
     tv.tv_sec = 0;
     tv.tv_usec = 10000;
@@ -137,8 +137,14 @@ bool BabeltraceParser::isProcessing()
   return processing_.load();
 }
 
+void BabeltraceParser::reset()
+{
+  halted_.store(false);
+}
+
 void BabeltraceParser::halt()
 {
+  halted_.store(true);
   processing_.store(false);
   std::lock_guard<std::mutex> lock(mutex_);
   sessions_recording_.clear();
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 8c2c49d..ef7ebbd 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -71,6 +71,7 @@ void BabeltraceTool::init(std::string path)
         std::vector<std::string>{ "--clock-seconds", "--clock-gmt", "--no-delta", "--input-format=lttng-live", path });
   }
 
+  parser_->reset();
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
   parser_worker_ = std::thread([&]() { parser_->process(process_->stdoutFile()); });
 }
-- 
2.43.0


From ccf5fbf83d5c7bfa061c53f78ae09ea085f7d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 26/43] fix: don't use the provider of a native trace source if
 it no longer exists

---
 scalopus_tracing/src/native/native_trace_source.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e6cabb3..82060f0 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -75,10 +75,11 @@ std::vector<json> NativeTraceSource::finishInterval()
 
   // Update mappings.
   auto provider = provider_.lock();
-  if (provider != nullptr)
+  if (provider == nullptr)
   {
-    provider->updateMapping();
+    return res;  // The provider is gone, can't resolve or log anything.
   }
+  provider->updateMapping();
   const auto mapping = provider->getMapping();
 
   // Obtain the data chunks.
-- 
2.43.0


From c96bd56b9d84801bd24cf6bbba77c6d21399bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 27/43] fix: don't dereference the value of a counter event
 that has none

---
 scalopus_tracing/src/native/native_trace_source.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index 82060f0..92468c4 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -153,7 +153,11 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["ph"] = "C";
             const auto counter_series = NativeTraceProvider::splitCounterSeriesName(trace_id_string);
             entry["name"] = counter_series.first;
-            std::int64_t z;
+            if (event.dynamic_data == nullptr)
+            {
+              throw std::runtime_error("Counter event without a value.");
+            }
+            std::int64_t z{ 0 };
             cbor::from_cbor(z, *event.dynamic_data);
             // Update the current counters.
             counter_values[pid][counter_series.first][counter_series.second] = z;
-- 
2.43.0


From 5ecbbe1f2638766d9ba22b04b4f7a741d22c23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 28/43] fix: make the flag that stops the trace sender thread
 atomic

---
 .../include/scalopus_tracing/endpoint_native_trace_sender.h   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
index 3b70579..ce03003 100644
--- a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
+++ b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
@@ -31,6 +31,8 @@
 #define SCALOPUS_TRACING_ENDPOINT_NATIVE_TRACE_SENDER_H
 
 #include <scalopus_interface/transport.h>
+#include <atomic>
+#include <thread>
 
 namespace scalopus
 {
@@ -51,7 +53,7 @@ public:
 
 private:
   void work();
-  bool running_{ true };
+  std::atomic_bool running_{ true };
   std::thread worker_;
 };
 
-- 
2.43.0


From 8f28abfce99bef06b87eb8dc41af220f4acef023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 29/43] fix: make the transport of an endpoint atomic

The worker of the trace sender reads it while addEndpoint() assigns it.
---
 scalopus_general/src/endpoint_introspect.cpp                 | 2 +-
 scalopus_general/src/endpoint_process_info.cpp               | 2 +-
 scalopus_interface/include/scalopus_interface/endpoint.h     | 5 +++--
 scalopus_tracing/src/endpoint_trace_configurator.cpp         | 4 ++--
 scalopus_tracing/src/endpoint_trace_mapping.cpp              | 2 +-
 scalopus_tracing/src/native/endpoint_native_trace_sender.cpp | 5 +++--
 6 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/scalopus_general/src/endpoint_introspect.cpp b/scalopus_general/src/endpoint_introspect.cpp
index 8f9bd39..755692f 100644
--- a/scalopus_general/src/endpoint_introspect.cpp
+++ b/scalopus_general/src/endpoint_introspect.cpp
@@ -64,7 +64,7 @@ std::vector<std::string> EndpointIntrospect::supported()
   }
 
   // Obtain the response data
-  auto future_ptr = transport_->request(name, {});
+  auto future_ptr = transport_.load()->request(name, {});
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
     json jdata = json::from_bson(future_ptr->get());  // This line may throw
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index bb68e06..cab073b 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -89,7 +89,7 @@ EndpointProcessInfo::ProcessInfo EndpointProcessInfo::processInfo()
   ProcessInfo info;
   json request = json::object();
   request["cmd"] = "info";
-  auto future_ptr = transport_->request(getName(), json::to_bson(request));
+  auto future_ptr = transport_.load()->request(getName(), json::to_bson(request));
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
diff --git a/scalopus_interface/include/scalopus_interface/endpoint.h b/scalopus_interface/include/scalopus_interface/endpoint.h
index 82015de..eab659e 100644
--- a/scalopus_interface/include/scalopus_interface/endpoint.h
+++ b/scalopus_interface/include/scalopus_interface/endpoint.h
@@ -31,6 +31,7 @@
 #define SCALOPUS_INTERFACE_ENDPOINT_H
 
 #include <scalopus_interface/types.h>
+#include <atomic>
 #include <memory>
 #include <string>
 #include <vector>
@@ -88,8 +89,8 @@ public:
    */
   // static Endpoint::Ptr factory(const std::shared_ptr<Transport>& transport);
 protected:
-  Transport* transport_{ nullptr };  // Transport has a shared pointer to the endpoint, so it cannot go out of scope
-                                     // before this.
+  std::atomic<Transport*> transport_{ nullptr };  // Transport has a shared pointer to the endpoint, so it cannot go
+                                                  // out of scope before this.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_tracing/src/endpoint_trace_configurator.cpp b/scalopus_tracing/src/endpoint_trace_configurator.cpp
index 74b66e7..da2d9cd 100644
--- a/scalopus_tracing/src/endpoint_trace_configurator.cpp
+++ b/scalopus_tracing/src/endpoint_trace_configurator.cpp
@@ -69,7 +69,7 @@ EndpointTraceConfigurator::setTraceState(const TraceConfiguration& state) const
   json request = json::object();
   request["cmd"] = "set";
   request["state"] = state;
-  auto future_ptr = transport_->request(getName(), json::to_bson(request));
+  auto future_ptr = transport_.load()->request(getName(), json::to_bson(request));
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
@@ -91,7 +91,7 @@ EndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTrac
 
   json request = json::object();
   request["cmd"] = "get";
-  auto future_ptr = transport_->request(getName(), json::to_bson(request));
+  auto future_ptr = transport_.load()->request(getName(), json::to_bson(request));
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 4b266f9..0c1f7b8 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -69,7 +69,7 @@ EndpointTraceMapping::ProcessTraceMap EndpointTraceMapping::mapping()
     throw communication_error("No transport provided to endpoint, cannot communicate.");
   }
 
-  auto future_ptr = transport_->request(getName(), { 'm' });
+  auto future_ptr = transport_.load()->request(getName(), { 'm' });
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
     ProcessTraceMap res;
diff --git a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
index fd5c148..8695684 100644
--- a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
+++ b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
@@ -102,9 +102,10 @@ void EndpointNativeTraceSender::work()
     }
     if (collected)
     {
-      if (transport_ != nullptr)
+      Transport* transport = transport_;
+      if (transport != nullptr)
       {
-        transport_->broadcast("native_trace_receiver", process_events(events));
+        transport->broadcast("native_trace_receiver", process_events(events));
       }
     }
     // @TODO; do some real rate limiting here.
-- 
2.43.0


From 1a4cf0481460029f5ec243602e2efb7b897f77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 30/43] fix: make the ringbuffer size atomic, threads read it
 when they start tracing

---
 scalopus_tracing/src/native/tracepoint_collector_native.cpp | 2 +-
 scalopus_tracing/src/native/tracepoint_collector_native.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/native/tracepoint_collector_native.cpp b/scalopus_tracing/src/native/tracepoint_collector_native.cpp
index a6af206..7c30b73 100644
--- a/scalopus_tracing/src/native/tracepoint_collector_native.cpp
+++ b/scalopus_tracing/src/native/tracepoint_collector_native.cpp
@@ -85,7 +85,7 @@ tracepoint_collector_types::ScopeBufferPtr TracePointCollectorNative::getBuffer(
   {
     // Buffer did not exist for this thread, make a new one.
     auto buffer = std::make_shared<tracepoint_collector_types::ScopeBuffer>(
-        tracepoint_collector_types::EventContainer{ ringbuffer_size_ });
+        tracepoint_collector_types::EventContainer{ ringbuffer_size_.load() });
     active_tid_buffers_.insert(tid, buffer);
     return buffer;
   }
diff --git a/scalopus_tracing/src/native/tracepoint_collector_native.h b/scalopus_tracing/src/native/tracepoint_collector_native.h
index 5a00026..e963f6b 100644
--- a/scalopus_tracing/src/native/tracepoint_collector_native.h
+++ b/scalopus_tracing/src/native/tracepoint_collector_native.h
@@ -33,6 +33,7 @@
 #include <cbor/stl.h>
 #include <scalopus_general/map_tracker.h>
 #include <scalopus_interface/types.h>
+#include <atomic>
 #include <chrono>
 #include <map>
 #include <mutex>
@@ -173,7 +174,7 @@ private:
    * If this is too small, and the thread produces events quicker than the server thread collects them this will result
    * in lost events.
    */
-  std::size_t ringbuffer_size_{ 10000 };
+  std::atomic_size_t ringbuffer_size_{ 10000 };
 
   /**
    *  @brief Thread safe map that tracks the event buffers per thread for currently active threads.
-- 
2.43.0


From be2a07fd0193b675441af6c20ec301f607c92489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 31/43] fix: make the flag that registers a trace name once
 atomic

The same tracepoint is reached by several threads.
---
 .../include/scalopus_tracing/internal/trace_macro.h            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
index 8d92cf3..a28e6c0 100644
--- a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
+++ b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
@@ -34,6 +34,7 @@
 #include <scalopus_tracing/internal/count_tracepoint.h>
 #include <scalopus_tracing/internal/marker_tracepoint.h>
 #include <scalopus_tracing/internal/scope_tracepoint.h>
+#include <atomic>
 #include <scalopus_tracing/internal/compile_time_crc.hpp>
 
 // Create a unique ID based on the crc32 of the filename and the line number.
@@ -45,7 +46,7 @@
 // Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using a
 // static boolean.
 #define TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, have_done_setup_varname)                                         \
-  static bool have_done_setup_varname = false;                                                                         \
+  static std::atomic_bool have_done_setup_varname{ false };                                                            \
   if (!have_done_setup_varname)                                                                                        \
   {                                                                                                                    \
     have_done_setup_varname = true;                                                                                    \
-- 
2.43.0


From 86560003d6adf07617db0ebb5bfc4407f1a38b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 32/43] fix: skip unknown tracepoints instead of producing
 events without a phase

The lookup of the phase threw further on and all events were lost.
---
 scalopus_tracing/src/lttng/lttng_source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 23dbe09..76de446 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -147,6 +147,10 @@ std::vector<json> LttngSource::convertEvents()
         counter_values[counter_series.first][counter_series.second] = z;
         entry["args"] = counter_values[counter_series.first];
       }
+      else
+      {
+        continue;  // Not one of our tracepoints, it has no representation.
+      }
       result.push_back(entry);
     }
   }
-- 
2.43.0


From f8f662bd29eca7ba5c1c98d60bcce384a1fb1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 33/43] fix: exit the forked process if the program can't be
 started

The child returned from run() and continued as a second copy of the host
program. A failing fork was ignored, after which SIGINT was sent to pid -1,
every process of the user, when the tool was halted.
---
 .../include_consumer/scalopus_tracing/subprocess.hpp  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 589a660..a7478f3 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -115,7 +115,16 @@ private:
 
         pid = ::fork();
       
-        if (pid == 0) child(argv);
+        if (pid == -1)
+        {
+            throw std::system_error(errno, std::system_category());
+        }
+
+        if (pid == 0)
+        {
+            child(argv);
+            ::_exit(127); // Only reached if the program could not be started.
+        }
 
         ::close(in_pipe[READ]);
         ::close(out_pipe[WRITE]);
-- 
2.43.0


From 9b5c97a684931130a2ec80eb4b7971816d1576ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 34/43] fix: allow stopping a recorder that isn't running

Stopping twice, or destroying a recorder that was stopped or never started,
threw from std::thread::join.
---
 scalopus_catapult/src/catapult_recorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index c780a46..536d65e 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -54,7 +54,10 @@ void CatapultRecorder::loop()
 void CatapultRecorder::stop()
 {
   running_ = false;
-  worker_.join();
+  if (worker_.joinable())
+  {
+    worker_.join();
+  }
 }
 
 void CatapultRecorder::startInterval()
-- 
2.43.0


From ce613337b18c5be4cafb0d4e6e214f2f8bad8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 35/43] fix: hold the lock when making the sources of the
 recorder

---
 scalopus_catapult/src/catapult_recorder.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 536d65e..51a3f72 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -90,12 +90,15 @@ void CatapultRecorder::start()
     return;
   }
 
-  sources_.clear();
-  sources_.reserve(providers_.size());
-  // Add all the sources to the session
-  for (auto& provider : providers_)
   {
-    sources_.push_back(provider->makeSource());
+    std::lock_guard<std::mutex> lock{ source_mutex_ };
+    sources_.clear();
+    sources_.reserve(providers_.size());
+    // Add all the sources to the session
+    for (auto& provider : providers_)
+    {
+      sources_.push_back(provider->makeSource());
+    }
   }
   running_ = true;
   worker_ = std::thread{ [&] { loop(); } };
-- 
2.43.0


From d483323f1a9ebb3c28f6af3d44661087c11b335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 36/43] fix: don't throw from the destructor of the recorder

Collecting the events queries remote processes, which throws if one of these
is gone.
---
 scalopus_catapult/src/catapult_recorder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 51a3f72..fc36b6a 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -154,7 +154,14 @@ CatapultRecorder::~CatapultRecorder()
   stop();
   if (!dump_file_path_.empty())
   {
-    writeToFile(dump_file_path_);
+    try
+    {
+      writeToFile(dump_file_path_);
+    }
+    catch (...)
+    {
+      // Collecting the events failed, can't throw from the destructor.
+    }
   }
 }
 
-- 
2.43.0


From 6f416edc32bf8a4a9fca238909c4ab731def38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 37/43] fix: don't join the server thread if starting the
 server failed

---
 scalopus_catapult/src/catapult_server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_server.cpp b/scalopus_catapult/src/catapult_server.cpp
index f1dfe94..9bbb50b 100644
--- a/scalopus_catapult/src/catapult_server.cpp
+++ b/scalopus_catapult/src/catapult_server.cpp
@@ -94,7 +94,10 @@ CatapultServer::~CatapultServer()
   if (server_ != nullptr)
   {
     server_->terminate();
-    thread_.join();
+    if (thread_.joinable())
+    {
+      thread_.join();
+    }
   }
 }
 
-- 
2.43.0


From 78c93c6a12f02c4eaedfae7b5e86db3ccfafa982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 38/43] fix: make the flag that stops the session thread atomic

---
 scalopus_catapult/src/trace_session.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 8021426..1142bf4 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -32,6 +32,7 @@
 #define SCALOPUS_CATAPULT_TRACE_SESSION_H
 
 #include <scalopus_interface/trace_event_source.h>
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -107,7 +108,7 @@ private:
   void outgoing(const std::string& msg);
 
   std::thread worker_;    //!< Worker thread for this session.
-  bool running_{ true };  //!< Bool to quit the worker thread gracefully.
+  std::atomic_bool running_{ true };  //!< Bool to quit the worker thread gracefully.
 
   /**
    * @brief The function executed by the worker thread.
-- 
2.43.0


From 829ef5ba89c2118bd04d581c5b80f6c1a2907e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 39/43] fix: guard the sources of a session, its worker runs
 while they are added

---
 scalopus_catapult/src/trace_session.cpp | 31 ++++++++++++++++++-------
 scalopus_catapult/src/trace_session.h   |  1 +
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index fc22111..f90e885 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -46,6 +46,7 @@ TraceSession::~TraceSession()
 
 void TraceSession::addSource(TraceEventSource::Ptr&& source)
 {
+  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
   sources_.push_back(source);
 }
 
@@ -80,9 +81,12 @@ void TraceSession::loop()
     }
 
     // Perform work with the sources
-    for (auto& source : sources_)
     {
-      source->work();
+      std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+      for (auto& source : sources_)
+      {
+        source->work();
+      }
     }
 
     // Finally, block a bit just to prevent spinning.
@@ -110,9 +114,12 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   {
     // Tracing was started by catapult.
     json res = { { "id", msg["id"] }, { "result", {} } };
-    for (auto& source : sources_)
     {
-      source->startInterval();
+      std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+      for (auto& source : sources_)
+      {
+        source->startInterval();
+      }
     }
     outgoing(res.dump());
     return;
@@ -121,19 +128,25 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   if (msg["method"] == "Tracing.end")
   {
     // Tracing was stopped.
-    for (auto& source : sources_)
     {
-      source->stopInterval();
+      std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+      for (auto& source : sources_)
+      {
+        source->stopInterval();
+      }
     }
 
     json res = { { "id", msg["id"] }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
     outgoing(res.dump());
 
     std::vector<json> events;
-    for (auto& source : sources_)
     {
-      auto results = source->finishInterval();
-      events.insert(events.end(), results.begin(), results.end());
+      std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+      for (auto& source : sources_)
+      {
+        auto results = source->finishInterval();
+        events.insert(events.end(), results.begin(), results.end());
+      }
     }
     chunkedTransmit(events);
 
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 1142bf4..dc98378 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -82,6 +82,7 @@ public:
 private:
   ResponseFunction response_;  //!< The function to be used to send data to the client over the websocket.
 
+  mutable std::mutex sources_mutex_;            //!< Mutex for the list of sources.
   std::vector<TraceEventSource::Ptr> sources_;  //!< The active sources in this session.
 
   mutable std::mutex incoming_mutex_;    //!< Mutex for list of incoming messages that are pending processing.
-- 
2.43.0


From 29e913461b169557ad3451b93eaa0e73b0d1eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 40/43] fix: don't end the process on messages a session can't
 handle

Any text that isn't a json object, or a source that fails to collect its
events, terminated the process through the worker thread of the session.
---
 scalopus_catapult/src/trace_session.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index f90e885..6e6f596 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -77,7 +77,14 @@ void TraceSession::loop()
     // Handle any incoming messages from the websocket
     while (haveIncoming() && running_)
     {
-      processMessage(popIncoming());
+      try
+      {
+        processMessage(popIncoming());
+      }
+      catch (...)
+      {
+        logger_("[session " + identifier() + "] failed to process a message.");
+      }
     }
 
     // Perform work with the sources
@@ -144,8 +151,15 @@ void TraceSession::processMessage(const std::string& incoming_msg)
       std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
       for (auto& source : sources_)
       {
-        auto results = source->finishInterval();
-        events.insert(events.end(), results.begin(), results.end());
+        try
+        {
+          auto results = source->finishInterval();
+          events.insert(events.end(), results.begin(), results.end());
+        }
+        catch (...)
+        {
+          logger_("[session " + identifier() + "] failed to collect the events of a source.");
+        }
       }
     }
     chunkedTransmit(events);
-- 
2.43.0


From 9d95916aba0dd2b5fb41664aa92440fa8d1c75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 41/43] fix: use names that exist in the Python package

weakref was not imported and NotImplemented is not an exception.
---
 scalopus_python/scalopus/general.py   | 2 ++
 scalopus_python/scalopus/interface.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scalopus_python/scalopus/general.py b/scalopus_python/scalopus/general.py
index f0aff1a..7890e34 100644
--- a/scalopus_python/scalopus/general.py
+++ b/scalopus_python/scalopus/general.py
@@ -27,6 +27,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import weakref
+
 from .lib import general
 
 EndpointIntrospect = general.EndpointIntrospect
diff --git a/scalopus_python/scalopus/interface.py b/scalopus_python/scalopus/interface.py
index 541b61b..cdb34bb 100644
--- a/scalopus_python/scalopus/interface.py
+++ b/scalopus_python/scalopus/interface.py
@@ -62,7 +62,7 @@ class Endpoint(lib.interface.Endpoint):
             :return: The name of this endpoint.
             :rtype: str
         """
-        raise NotImplemented("getName must be implemented by the subclass.")
+        raise NotImplementedError("getName must be implemented by the subclass.")
 
 class TraceEventSource(lib.interface.TraceEventSource):
     """TraceEventSource base class for Python providers.
@@ -109,4 +109,4 @@ class TraceEventProvider(lib.interface.TraceEventProvider):
             :return: New instance of the trace event source.
             :rtype: TraceEventSource
         """
-        raise NotImplemented("makeSource must be implemented by the subclass.")
+        raise NotImplementedError("makeSource must be implemented by the subclass.")
-- 
2.43.0


From 96638404bdc619ea9d3f2a0585980285238ea2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 42/43] fix: restore the right thread state when a state
 switcher is nested or shared

Recursive calls and calls from multiple threads of a suppressed function
overwrote the stored state, leaving tracing disabled.
---
 scalopus_python/scalopus/tracing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scalopus_python/scalopus/tracing.py b/scalopus_python/scalopus/tracing.py
index 8b8341f..efc31b2 100644
--- a/scalopus_python/scalopus/tracing.py
+++ b/scalopus_python/scalopus/tracing.py
@@ -29,6 +29,7 @@
 
 from .lib import tracing
 import random
+import threading
 from functools import wraps
 
 
@@ -206,7 +207,7 @@ class ThreadStateSwitcher:
     """
     def __init__(self, target_state):
         self.target_state = target_state
-        self.old_states = None
+        self.old_states = threading.local()  # stack of states for each thread.
 
     def enter(self):
         self.__enter__()
@@ -215,10 +216,12 @@ class ThreadStateSwitcher:
         self.__exit__(None, None, None)
 
     def __enter__(self):
-        self.old_state = setThreadState(self.target_state)
+        if not hasattr(self.old_states, "stack"):
+            self.old_states.stack = []
+        self.old_states.stack.append(setThreadState(self.target_state))
 
     def __exit__(self, context_type, context_value, context_traceback):
-        setThreadState(self.old_state)
+        setThreadState(self.old_states.stack.pop())
 
 
 def suppressed(f):
-- 
2.43.0


From dac7f3cc482ab97c403da788dd7fbe76f465cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 43/43] fix: invalid UTF-8 in one event no longer prevents all
 recorded events from being delivered

---
 scalopus_catapult/src/catapult_recorder.cpp | 3 ++-
 scalopus_catapult/src/trace_session.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index fc36b6a..bd85af0 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -136,7 +136,8 @@ std::string CatapultRecorder::collectEvents()
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Names come from other programs, invalid UTF-8 in one of them should not prevent all events from being written.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "\n]\n";
   return ss.str();
diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 6e6f596..7041e6d 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -206,7 +206,8 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Names come from other programs, invalid UTF-8 in one of them should not prevent all events from being written.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "]}}";
   return ss.str();
-- 
2.43.0

