// A simulated OpenCL device: kernels are compiled from their source strings as C++ and run item by item;
// the queue executes its commands at moments chosen by the harness.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace clsim {
// ---- kernels
struct Arg { int kind = 0; size_t size = 0; std::vector<unsigned char> value; void * mem = nullptr; };   // 1: value, 2: global memory, 3: local memory of that size
struct Code { void * so = nullptr; bool barriers = false; std::string error; };
Code build(const std::string & source, const std::string & options, bool checked);   // cached; checked: with access checks
// order: the order in which the items of a group run between barriers (empty: ascending)
struct Launch { std::vector<Arg> args; size_t global = 1, local = 1, offset = 0; std::vector<int> order; bool groups_backwards = false; };
std::string run(const Code & c, const std::string & function, const Launch & l, bool checked);   // what is wrong, or ""
// memory that checked kernels may touch; defined: one flag per byte, reading undefined bytes is an error
void region(void * p, size_t n, bool defined, bool writable); void forget_regions(); extern long accesses, phases;
// ---- the device as seen by the host
extern int devices, cpu_devices;      // simulated graphics devices; others must not be offered
extern int (*execute_now)(int pending, const char * at);   // how many of the pending commands are executed at this call of the host
extern bool checked_kernels;
[[noreturn]] void wrong(const std::string & msg); extern void (*on_wrong)(const std::string &);
struct BufferState { std::vector<unsigned char> data; std::vector<unsigned char> defined; unsigned long flags = 0; };
struct ProgramState { std::string source, options, log; bool built = false; Code code; };
struct KernelState { std::shared_ptr<ProgramState> program; std::string name; std::vector<std::shared_ptr<BufferState>> buffers; std::vector<Arg> args; };
struct Command { int kind; std::shared_ptr<BufferState> buffer; size_t off = 0, size = 0; const void * src = nullptr; void * dst = nullptr; KernelState kernel; size_t goff = 0, global = 0, local = 0; };
struct QueueState { std::vector<Command> pending; };
int enqueue(QueueState & q, Command && c, bool blocking); int finish(QueueState & q);
void drop(QueueState & q);            // the queue is released
extern long commands, launches;
}
