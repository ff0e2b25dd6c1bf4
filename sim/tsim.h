// Scheduler of the tsim variant: tasks are real threads of which exactly one runs; every instrumented access to watched
// memory, every lock, sleep and protection change is a point where the seeded scheduler may switch.
#pragma once
#include "core.h"
#include <functional>
namespace tsim {
void start(int scale = 1);                                             // forget everything, before spawning
int spawn(const char *name, std::function<void()> body);
void run();                                               // until every task has ended (or was killed)
int self();                                               // -1: not in a task
void watch(const void *p, size_t n, bool all_accesses_yield);   // memory whose accesses are scheduling points
void watch_race(const void *p, size_t n);                  // memory of which unsynchronised conflicting accesses are reported
void reset_library();                                     // the library's variables get the values they had at program start
void watch_globals(bool races);                           // the data segment of the program; races: report unsynchronised conflicting accesses
void protect_per_task(void *p, size_t n);                 // each task has its own protection of this memory (separate processes)
void protect_shared(void *p, size_t n);                   // one protection for all tasks (threads of one process)
uint64_t clock();                                         // scheduling steps so far
void kill_at(int task, uint64_t points, bool in_lock);    // the task dies at its points-th scheduling point
bool killed(int task);
bool any_stuck();                                         // run() ended because every live task waits for a dead one
bool lock_held_by_dead();
uint64_t switches();
void point();                                             // an explicit scheduling point
}
