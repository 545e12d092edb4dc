#pragma once

//
// A scheduler for the threads of the code under test. The code is compiled
// with -fsanitize=thread, whose calls at every memory access and atomic
// operation come here instead of to its usual library: one thread runs at a
// time and every such call may hand over to another one, as a seeded random
// schedule decides. Waiting (poll, mutex, condition, join) and time are the
// scheduler's own, so that schedules are repeatable and "everything waits" is
// known.
//

// the calling thread and the threads created from now on are scheduled
void vs_begin(uint64_t seed, int atomic, int plain);
void vs_end(void);
bool vs_active(void);

// runs the other threads until all of them wait; timers up to ms milliseconds
// ahead fire. False: they do not come to rest.
bool     vs_quiesce(int ms);
uint64_t vs_time_ms(void);
uint64_t vs_steps(void);
