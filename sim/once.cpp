// Replacement of the thread-local state behind std::call_once (compiled with emulated TLS).
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
}  // namespace std
extern "C" void __once_proxy() { std::__once_call(); }
