#pragma once
#include "sim.hpp"
namespace sim {
// configuration, reset before every run
struct IpcCfg
{
	bool faults;           // semget/shmget/shmat/ftok/first-undo failures through inject()
	u64 faulty_procs;      // bit mask of processes whose calls may fail
	bool random_wake;      // waiters completed in drawn instead of FIFO order
};
extern IpcCfg ipc;
void ipc_keyfile(const char *path, bool exists);  // key files; unknown paths do not exist
int ipc_attached(Proc *p);                        // attachments held by a process
void ipc_inherit(Proc *child, Proc *parent);      // fork: attachments are inherited, undo is not
int ipc_semval(int n);                            // value of semaphore n of the only set, -1 if none
int ipc_segments();
void ipc_compact();              // gives pages that hold zeroes only back
int ipc_semsets();
bool ipc_died_newborn();                          // a process died between creating a semaphore set and its next System V call
void ipc_remove_sems();                           // as ipcrm: removes every semaphore set
}
