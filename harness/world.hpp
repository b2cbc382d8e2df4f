// A model of a directory tree: operations are done for real, and say which
// changes a watcher on some directory of it has to report.
#pragma once
#include "core.hpp"
#include "ip.hpp"

namespace world {

using core::Case;
using core::Info;
using core::Op;
using core::Outcome;
using core::u32;
using std::string;

struct Node {
  char type = 'f';  // d: directory, f: file, l: symlink, p: fifo
  int ino = 0;
  long size = 0;
};

// A change, anywhere below the base
struct Raw {
  int et = 0;
  char type = 'f';
  string path;   // absolute
  string to;     // renames
  int max = 1;   // modifications: at most this many events
  bool opt = false;       // may go unreported (in a directory which just appeared)
  bool from_opt = false;  // renames: that end may go unreported
  bool to_opt = false;
};

// What a watcher should report
struct Exp {
  int et = 0;
  char type = 'f';
  string path;
  bool assoc = false;
  string apath;
  int max = 1;
  bool opt = false;
  bool from_opt = false, to_opt = false;  // a rename's ends
  bool halves = false;  // a rename, reported as such or as either half (or both)
};

enum Act {
  a_create, a_create_write, a_write, a_truncate, a_unlink, a_mkdir, a_rmdir, a_rm_r,
  a_rename_file, a_rename_dir, a_rename_over, a_move_out, a_move_in, a_link, a_symlink,
  a_exchange, a_fifo, a_noise, a_outside, a_mkdirs, a_movein_tree, a_moveout_dir,
  a_flush, a_swap_names, a_reuse, a_renames,
};

struct World {
  string base;
  std::vector<string> roots;         // absolute; never renamed or removed
  std::map<string, Node> t;          // absolute path -> node
  std::vector<string> names;         // the names this case uses
  std::vector<Raw> raws;             // since the last flush
  std::vector<string> log;           // operations, for people
  std::set<string> touched;          // directories' paths involved in this burst
  std::set<string> fresh;            // of those, what appeared in this burst
  bool chaos = false;                // directories may change again before that was read
  bool may_split = false;            // is the watcher reading as changes are made?
  bool fan = ip::sim();              // does it know directories' paths only as it reads?
  bool live = false;                 // record changes
  long mutations = 0;
  std::map<string, long> did;
  int inode = 0, serial = 0;
  std::function<Outcome()> flush;    // called when a burst must end

  explicit World(string base);
  void pick_names(u32 seed);
  bool in(string const& dir, string const& p) const;
  std::vector<string> all(char type, string const& under) const;
  string pick_dir(u32 x, string const& under) const;
  bool conflicts(string const& p) const;
  bool is_root(string const& p) const;
  bool holds_root(string const& p) const;
  bool unsettled(string const& p) const;   // is p's directory fresh?
  bool add(string const& p, Node n);
  void raw(int et, char type, string const& p, string const& to = {}, int max = 1);
  void say(string s);
  string rel(string const& p) const;
  string new_name(u32 x, string const& dir) const;

  // Do something; false if there's nothing to do it with.
  Outcome act(int a, Op const& o, string const& under, bool& did_it);
  void reset_burst();

  Outcome do_rename(string const& from, string const& to, unsigned flags, bool& ok);
  void move_nodes(string const& from, string const& to);
};

std::vector<Exp> view(std::vector<Raw> const& raws, string const& root, bool may_split);
bool same(sut::Ev const& e, Exp const& x);
string show(Exp const& x);
// Are these events just what was expected?
Outcome match(std::vector<Exp> const& want, std::vector<sut::Ev> const& got, bool prefix = false);
// Without the harness's own files, and without warnings (but of overflows, unless there may be some).
std::vector<sut::Ev> relevant(std::vector<sut::Ev> const& evs, bool may_overflow = false);

}  // namespace world
