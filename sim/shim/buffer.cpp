// The wrapper's buffer interface (autotraceRun, outputFileSize, getOutputFile)
// lives in the wrapper's program; this makes it callable from the simulator.
#define main autotrace_buffer_program_main
#include BUFFER_SOURCE
#undef main

bool buffer_run(const void *p, size_t n, const std::string &fit, const std::string &in, const std::string &out, std::string &error) {
  const auto r = autotraceRun(reinterpret_cast<uintptr_t>(p), n, fit, in, out);
  error = r.error;
  return r.success;
}
bool buffer_size(unsigned long long &value, std::string &error) {
  const auto r = outputFileSize();
  error = r.error;
  value = r.value;
  return r.success;
}
bool buffer_get(void *p, size_t n, std::string &error) {
  const auto r = getOutputFile(reinterpret_cast<uintptr_t>(p), n);
  error = r.error;
  return r.success;
}
