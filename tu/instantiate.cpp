// Analysis-only translation unit: instantiates the header templates and expands the tracing macros, so that the rules
// see the code a user of the headers gets. It is parsed, never compiled or run.
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <iterator>
#include <scalopus_general/destructor_callback.h>
#include <scalopus_general/map_tracker.h>
#include <scalopus_general/thread_naming.h>
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_tracing/trace_macro.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/native_trace_provider.h>
#include "spsc_ringbuffer.h"

template class scalopus::SPSCRingBuffer<std::vector<std::unique_ptr<int>>>;
template class scalopus::MapTracker<unsigned long, std::string>;

namespace verif_tu
{
void use_ringbuffer(scalopus::SPSCRingBuffer<std::vector<std::unique_ptr<int>>>& b,
                    std::vector<std::unique_ptr<int>>& out)
{
  b.pop_into(std::back_inserter(out), 5);
}
//! Stands for the code of the user inside a traced scope.
void user_code();
void macro_scope_raii() { TRACE_SCOPE_RAII("raii_name"); user_code(); }
void macro_scope_raii_other() { TRACE_SCOPE_RAII("other_raii_name"); user_code(); }
void macro_pretty_function() { TRACE_PRETTY_FUNCTION(); user_code(); }
void macro_scope_start() { TRACE_SCOPE_START("pair_name"); user_code(); }
void macro_scope_end() { TRACE_SCOPE_END("pair_name"); user_code(); }
void macro_scope_start_other() { TRACE_SCOPE_START("other_pair_name"); user_code(); }
void macro_mark_global() { TRACE_MARK_EVENT_GLOBAL("mark_name"); }
void macro_mark_process() { TRACE_MARK_EVENT_PROCESS("mark_name"); }
void macro_mark_thread() { TRACE_MARK_EVENT_THREAD("mark_name"); }
void macro_count(long v) { TRACE_COUNT("count_name", v); }
void macro_count_series(long v) { TRACE_COUNT_SERIES("count_name", "series_name", v); }
void macro_config_thread(bool b) { TRACING_CONFIG_THREAD_STATE_RAII(b); user_code(); }
void macro_config_process(bool b) { TRACING_CONFIG_PROCESS_STATE_RAII(b); user_code(); }
void macro_config_nested(bool a, bool b)
{
  TRACING_CONFIG_THREAD_STATE_RAII(a);
  {
    TRACING_CONFIG_PROCESS_STATE_RAII(a);
    TRACING_CONFIG_THREAD_STATE_RAII(b);
    user_code();
  }
  user_code();
}
void macro_thread_name() { TRACE_THREAD_NAME("thread_name"); }
void factories(scalopus::EndpointManager& m, const std::shared_ptr<scalopus::NativeTraceProvider>& p)
{
  m.addEndpointFactory<scalopus::EndpointTraceMapping>();
  m.addEndpointFactory("name", p);
  scalopus::EndpointManager::findEndpoint<scalopus::EndpointTraceMapping>({});
}
}  // namespace verif_tu
