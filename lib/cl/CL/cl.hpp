// The part of the OpenCL C++ bindings that a host program may use, on top of the simulated device of cl_sim.
#pragma once
#include "cl_sim.hh"
#include <cstring>
#include <map>
typedef int32_t cl_int; typedef uint32_t cl_uint; typedef unsigned long cl_mem_flags; typedef unsigned cl_bool; typedef unsigned long cl_device_type; typedef unsigned cl_platform_info; typedef unsigned cl_device_info;
enum { CL_SUCCESS = 0, CL_OUT_OF_RESOURCES = -5, CL_OUT_OF_HOST_MEMORY = -6, CL_INVALID_VALUE = -30, CL_INVALID_COMMAND_QUEUE = -36, CL_INVALID_ARG_INDEX = -49, CL_INVALID_KERNEL_ARGS = -52, CL_INVALID_WORK_GROUP_SIZE = -54, CL_FALSE = 0, CL_TRUE = 1, CL_MEM_READ_WRITE = 1, CL_MEM_WRITE_ONLY = 2, CL_MEM_READ_ONLY = 4, CL_MEM_USE_HOST_PTR = 8, CL_MEM_COPY_HOST_PTR = 32, CL_DEVICE_TYPE_CPU = 2, CL_DEVICE_TYPE_GPU = 4, CL_DEVICE_TYPE_ACCELERATOR = 8, CL_PLATFORM_VENDOR = 0x903, CL_PROGRAM_BUILD_LOG = 0x1183, CL_DEVICE_NAME = 0x102B, CL_PLATFORM_NAME = 0x902 };
namespace cl {
struct Event { cl_int wait() const { return 0; } };
struct Device { int id = 0; template<class T> cl_int getInfo(cl_device_info, T * s) const { *s = "simulated"; return 0; } };
struct Context { Context() {} Context(const Device &, void * = nullptr, void * = nullptr, void * = nullptr, cl_int * e = nullptr) { if (e) *e = 0; } Context(const std::vector<Device> &, void * = nullptr, void * = nullptr, void * = nullptr, cl_int * e = nullptr) { if (e) *e = 0; } };
// two platforms of one vendor show the same devices
struct Platform {
  int id = 0; static cl_int get(std::vector<Platform> * v) { v->clear(); for (int i = 0; i < 2; ++i) { Platform p; p.id = i; v->push_back(p); } return 0; }
  template<class T> cl_int getInfo(cl_platform_info, T * s) const { *s = "vendor"; return 0; }
  cl_int getDevices(cl_device_type t, std::vector<Device> * v) const { v->clear(); if (t & CL_DEVICE_TYPE_GPU) for (int i = 0; i < clsim::devices; ++i) { Device d; d.id = i; v->push_back(d); } if (t & CL_DEVICE_TYPE_CPU) for (int i = 0; i < clsim::cpu_devices; ++i) { Device d; d.id = 100 + i; v->push_back(d); } return v->empty() ? -1 : 0; }
};
struct Buffer {
  std::shared_ptr<clsim::BufferState> s; Buffer() {}
  Buffer(const Context &, cl_mem_flags f, size_t n, void * h = nullptr, cl_int * e = nullptr) : s(std::make_shared<clsim::BufferState>()) { s->flags = f; s->data.assign(n, 0xA5); s->defined.assign(n, 0); if (h && (f & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) { memcpy(s->data.data(), h, n); s->defined.assign(n, 1); } if (e) *e = n ? 0 : -61; }
};
struct Program {
  typedef std::vector<std::pair<const char *, size_t>> Sources; std::shared_ptr<clsim::ProgramState> s; Program() {}
  Program(const Context &, const Sources & v, cl_int * e = nullptr) : s(std::make_shared<clsim::ProgramState>()) { for (auto & x : v) s->source += std::string(x.first, x.second); if (e) *e = 0; }
  Program(const Context &, const std::string & c, bool b = false, cl_int * e = nullptr) : s(std::make_shared<clsim::ProgramState>()) { s->source = c; if (b) build(""); if (e) *e = 0; }
  cl_int build(const char * o = nullptr) const { s->options = o ? o : ""; s->code = clsim::build(s->source, s->options, clsim::checked_kernels); s->log = s->code.error; s->built = s->code.so; return s->built ? CL_SUCCESS : -11; }
  cl_int build(const std::vector<Device> &, const char * o = nullptr, void * = nullptr, void * = nullptr) const { return build(o); }
  template<int> std::string getBuildInfo(const Device &) const { return s->log; }
};
struct NDRange { size_t n[3] = {0, 0, 0}; int d = 0; NDRange() {} NDRange(size_t a) : d(1) { n[0] = a; } NDRange(size_t a, size_t b) : d(2) { n[0] = a; n[1] = b; } };
static const NDRange NullRange;
struct LocalSpaceArg { size_t size_; }; inline LocalSpaceArg Local(size_t n) { return {n}; }
struct Kernel {
  std::shared_ptr<clsim::KernelState> s; Kernel() {}
  Kernel(const Program & p, const char * n, cl_int * e = nullptr) : s(std::make_shared<clsim::KernelState>()) { s->program = p.s; s->name = n; if (e) *e = p.s && p.s->built ? 0 : -45; }
  clsim::Arg & at(unsigned i) { if (s->args.size() <= i) { s->args.resize(i + 1); s->buffers.resize(i + 1); } s->buffers[i].reset(); return s->args[i] = clsim::Arg(); }
  cl_int setArg(unsigned i, const Buffer & b) { auto & a = at(i); a.kind = 2; s->buffers[i] = b.s; return 0; }
  cl_int setArg(unsigned i, const LocalSpaceArg & l) { auto & a = at(i); a.kind = 3; a.size = l.size_; return 0; }
  cl_int setArg(unsigned i, size_t n, const void * v) { auto & a = at(i); a.size = n; if (v) { a.kind = 1; a.value.assign((const unsigned char *)v, (const unsigned char *)v + n); } else a.kind = 3; return 0; }
  template<class T> cl_int setArg(unsigned i, const T & v) { return setArg(i, sizeof v, (const void *)&v); }
};
struct CommandQueue {
  struct H { clsim::QueueState q; ~H() { clsim::drop(q); } }; std::shared_ptr<H> s = std::make_shared<H>(); CommandQueue() {}
  CommandQueue(const Context &, const Device &, unsigned long = 0, cl_int * e = nullptr) { if (e) *e = 0; }
  CommandQueue(const Context &, unsigned long = 0, cl_int * e = nullptr) { if (e) *e = 0; }
  cl_int enqueueWriteBuffer(const Buffer & b, cl_bool block, size_t off, size_t n, const void * p, const std::vector<Event> * = nullptr, Event * = nullptr) const { clsim::Command c; c.kind = 1; c.buffer = b.s; c.off = off; c.size = n; c.src = p; return clsim::enqueue(s->q, std::move(c), block); }
  cl_int enqueueReadBuffer(const Buffer & b, cl_bool block, size_t off, size_t n, void * p, const std::vector<Event> * = nullptr, Event * = nullptr) const { clsim::Command c; c.kind = 2; c.buffer = b.s; c.off = off; c.size = n; c.dst = p; return clsim::enqueue(s->q, std::move(c), block); }
  cl_int enqueueNDRangeKernel(const Kernel & k, const NDRange & o, const NDRange & g, const NDRange & l = NullRange, const std::vector<Event> * = nullptr, Event * = nullptr) const { clsim::Command c; c.kind = 3; c.kernel = *k.s; c.goff = o.n[0]; c.global = g.n[0]; c.local = l.n[0]; return clsim::enqueue(s->q, std::move(c), false); }
  cl_int finish() const { return clsim::finish(s->q); }
  cl_int flush() const { return 0; }
};
}
