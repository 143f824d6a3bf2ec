// Declaration-only stand-in for seasocks (not available offline), for front-end resolution only.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
namespace seasocks
{
class Logger
{
public:
  enum class Level { Debug, Access, Info, Warning, Error, Severe };
  virtual ~Logger() = default;
  virtual void log(Level level, const char* message) = 0;
};
class IgnoringLogger : public Logger { public: void log(Level, const char*) override; };
class PrintfLogger : public Logger
{
public:
  explicit PrintfLogger(Level minLevelToLog = Level::Debug);
  void log(Level, const char*) override;
};
class Request { public: virtual ~Request() = default; virtual const std::string& getRequestUri() const = 0; };
class Response
{
public:
  virtual ~Response() = default;
  static std::shared_ptr<Response> unhandled();
  static std::shared_ptr<Response> htmlResponse(const std::string& response);
  static std::shared_ptr<Response> jsonResponse(const std::string& response);
};
class PageHandler
{
public:
  virtual ~PageHandler() = default;
  virtual std::shared_ptr<Response> handle(const Request& request) = 0;
};
class WebSocket
{
public:
  virtual void send(const char* data) = 0;
  virtual void send(const std::string& data);
  virtual void send(const uint8_t* data, size_t length) = 0;
  virtual void close() = 0;
  class Handler
  {
  public:
    virtual ~Handler() = default;
    virtual void onConnect(WebSocket* connection) = 0;
    virtual void onData(WebSocket* connection, const char* data);
    virtual void onData(WebSocket* connection, const uint8_t* data, size_t length);
    virtual void onDisconnect(WebSocket* connection) = 0;
  };
protected:
  virtual ~WebSocket() = default;
};
class Server
{
public:
  explicit Server(std::shared_ptr<Logger> logger);
  ~Server();
  void setClientBufferSize(size_t bytesToBuffer);
  void addWebSocketHandler(const char* endpoint, std::shared_ptr<WebSocket::Handler> handler, bool allowCrossOrigin = false);
  void addPageHandler(std::shared_ptr<PageHandler> handler);
  bool startListening(int port);
  void loop();
  void terminate();
  using Executable = std::function<void()>;
  void execute(Executable toExecute);
};
}  // namespace seasocks
