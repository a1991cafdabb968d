// For demonstrations: the simulator's interface on real time and real threads.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <thread>
namespace sim
{
struct NoSim { NoSim() {} ~NoSim() {} };
enum PointKind { P_MEM, P_SYNC };
inline void point(PointKind) {}
inline uint64_t now() { return (uint64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline int64_t& wall_offset() { static int64_t o = 0; return o; }
inline int64_t wall() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count() + wall_offset(); }
inline void sleep_ns(uint64_t n) { std::this_thread::sleep_for(std::chrono::nanoseconds(n)); }
inline void ev(const char*, ...) {}
}
