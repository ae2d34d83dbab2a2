// Simulated disk behaviour for files below sim::scratch(): the calls
// libstdc++'s file streams make (fopen, read, write, writev, fclose) pass
// through here.  All other descriptors are untouched.
#ifndef VERIF_FILEIO_H
#define VERIF_FILEIO_H
#include <cstdint>
#include <functional>
#include <string>

namespace sim {

struct IoPlan {
  bool on = false;
  // reading
  int short_read = 0;       // percent of reads that deliver only a part
  int eintr = 0;            // percent of calls that are interrupted first
  std::string read_fail;    // file whose read number read_fail_at (1-based) fails with EIO, and all later
  int read_fail_at = 0;
  std::string open_fail;    // opening this file fails
  // writing
  int short_write = 0;      // percent of writes that accept only a part
  int64_t disk_bytes = -1;  // bytes the disk still takes before ENOSPC, -1 = unlimited
  int write_fail_at = 0;    // write number (1-based, all files) that fails with EIO, and all later
  int write_fail_len = 0;   // ...only so many, 0 = all later
  int64_t crash_at = -1;    // the process is killed when this many bytes are on disk
};
extern IoPlan io;
// what the calls did since io_reset
void io_reset(const IoPlan &p);
int64_t io_delivered(const std::string &path);   // bytes read() handed out
int io_reads(const std::string &path);
int64_t io_written();
int io_writes();
bool io_failed();                                // an error was returned to the program
constexpr int Crash_Code = 113;

// run fn in a forked child; its stdout goes to out.  Returns its exit status
// (128+signal, 134 for abort/terminate/assert).  Memory errors, hangs and
// sim::fail inside still fail the run.
int subprocess(const std::function<int()> &fn, std::string *out = nullptr);

// whole files, outside of the simulated disk faults
void put_file(const std::string &path, const std::string &data);
bool get_file(const std::string &path, std::string &data);

}  // namespace sim
#endif
