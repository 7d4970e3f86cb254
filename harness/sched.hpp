// Runs several threads one at a time under a given schedule. The code under test is compiled with gcc's thread
// instrumentation and linked with our own implementation of its callbacks (sched_rt.cpp), which (1) lets the schedule
// switch threads at every access to static data, atomic operation, lock and one-time initialisation, and (2) tracks
// happens-before with vector clocks and reports every pair of conflicting unordered accesses, to whatever memory.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sched {
static const int MAXT = 3, MAXP = 6;
struct Plan { int threads = 2; int start = 0; bool descending = false; int n = 0; uint32_t at[MAXP]; uint8_t to[MAXP];
	uint8_t* written = nullptr;        // marks the bytes of static data which are written (staticSize() bytes, shared)
	const uint8_t* points = nullptr; }; // accesses to these bytes of static data are scheduling points (all if null)   // preempt before point at[i], switch to the to[i]-th other thread
struct Report { // in shared memory, written by the process that executes the plan
	uint32_t points, accesses, switches, finished; char race[600]; char error[300]; char result[MAXT][65536]; uint32_t length[MAXT];
};
// Executes body(i) in thread i. To be called once per process.
void execute(const Plan& plan, void (*body)(int), Report* report);
size_t staticSize();
}
