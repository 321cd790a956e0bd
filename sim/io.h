// Simulated operating system: file system, TCP network, clocks. The code under test reaches it
// through the C library calls it makes (intercepted at link time); nothing real is touched while
// the simulation is active.
#pragma once
#include "core.h"

struct SysRec                 // one intercepted call, in order
{
	int actor;
	std::string op;           // open read write close ...
	std::string path;
	int fd;
	long ret; int err;
	std::string data;         // bytes transferred
	bool injected;            // an injected fault decided the result
	bool peek;
};

struct Inode { std::string data; int id; int links; };
struct IoCfg
{
	uint32_t faultPct;        // per-call chance (percent) of a fault
	bool shortIo, eio, enospc, eintr, openFail, closeFail, statFail, toctou;
	long diskLeft;            // bytes that still fit on the disk (-1: unlimited)
	IoCfg() : faultPct(0), shortIo(false), eio(false), enospc(false), eintr(false), openFail(false), closeFail(false), statFail(false), toctou(false), diskLeft(-1) {}
};
struct Sim
{
	bool active;
	IoCfg io;
	std::map<std::string, Inode*> files;
	std::vector<Inode*> inodes;
	std::vector<SysRec> rec;
	std::string stdinData; size_t stdinPos; bool stdinErr;
	int64_t wallUs, monoUs;   // clocks
	int clockReads;
	int64_t autoAdvanceUs;    // how far the clocks move at every read
	int openFds;
	int sigpipe;              // 0 default, 1 ignored
	uint64_t faults;
};
extern Sim g_sim;

void simio_activate();
void simio_deactivate();
Inode* simfs_create(std::string const& path, std::string const& data);
Inode* simfs_find(std::string const& path);
int sim_openDescriptors();
int sim_addrInfos();
struct FdInfo { bool open, file, readable, writable, append, conn, listening; Inode* ino; int64_t off; int connId, side, port; bool peerGone, reset; size_t avail; bool fin; };
FdInfo sim_fd(int fd);
void sim_netDown();           // every connection resets, every waiting accept fails: a blocked process can end
extern bool g_netDown;
std::string sim_describeDescriptors();

// ---------------------------------------------------------------- network
struct NetCfg
{
	uint32_t faultPct;
	bool partialSend, refuse, reset, eintr, delay, resolveFail, socketFail, dropSyn, bindFail, acceptFail;
	uint32_t maxSegment;      // bytes per delivered segment
	uint32_t window;          // unacknowledged bytes a sender may have outstanding
	NetCfg() : faultPct(0), partialSend(false), refuse(false), reset(false), eintr(false), delay(false), resolveFail(false), socketFail(false), dropSyn(false), bindFail(false), acceptFail(false), maxSegment(1 << 20), window(1 << 20) {}
};
extern NetCfg g_net;

// ---------------------------------------------------------------- coroutines (simulated processes)
typedef std::function<void()> CoFn;
int co_spawn(CoFn fn, const char* name);
void co_runAll(uint64_t maxSwitches);      // seeded scheduler; returns when all ended or nothing can run
void co_pause();                           // voluntary reschedule point
int co_current();
bool co_allDone();
std::string co_describe();
void co_reset();
// block the calling simulated process until cond() or the deadline (simulated us, -1 none); true if cond
bool sim_wait(std::function<bool()> cond, int64_t deadlineUs);
void sim_after(int64_t us, std::function<void()> fn);
