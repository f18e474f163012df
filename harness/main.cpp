/* usage: vh PROP SEED FIRST COUNT TIER OUTPREFIX TMPDIR
 * Runs cases FIRST..FIRST+COUNT-1 of one property's workload under its monitor.
 * exit 0: nothing to report; 3: violations recorded in OUTPREFIX.viol.*;
 * 4: usage or harness error; anything else: the library crashed. */
#include "core.hpp"
#include <sc.h>
#include <unistd.h>
#include <fcntl.h>

static std::map<std::string, prop_fn> & registry () { static std::map<std::string, prop_fn> m; return m; }
void register_prop (const char *name, prop_fn fn) { registry ()[name] = fn; }

void vh_mpi_fail (const char *key, const char *what, long a, long b) { FAILK (key, "%s (rank %ld, tag %ld)", what, a, b); }
/* the workload of another property; what its monitor says is not counted here */
bool run_other_property (Rng & r)
{
  std::vector<std::string> names;
  for (auto & kv : registry ()) if (kv.first != run.prop && kv.first != "C25") names.push_back (kv.first);
  const std::string n = names[r.below ((i64) names.size ())];
  count (("workloads_" + n).c_str ());
  run.borrowed = true;
  registry ()[n] (r);
  run.borrowed = false;
  return true;
}
static void progress (const char *what)
{
  if (run.rank || run.outprefix.empty ()) return;
  static int fd = -1;
  if (fd < 0) fd = open ((run.outprefix + ".progress").c_str (), O_CREAT | O_WRONLY | O_APPEND, 0644);
  char b[200];
  int n = snprintf (b, sizeof (b), "%s %ld\n", what, run.caseno);
  if (write (fd, b, n) < 0) { }
}

int main (int argc, char **argv)
{
  if (argc < 8) { fprintf (stderr, "usage\n"); return 4; }
  MPI_Init (&argc, &argv);
  run.prop = argv[1];
  run.seed = strtoull (argv[2], 0, 10);
  long first = atol (argv[3]), n = atol (argv[4]);
  run.tier = atoi (argv[5]);
  run.outprefix = argv[6];
  run.tmpdir = argv[7];
  MPI_Comm_rank (MPI_COMM_WORLD, &run.rank);
  MPI_Comm_size (MPI_COMM_WORLD, &run.size);
  int verbose = getenv ("VH_VERBOSE") ? atoi (getenv ("VH_VERBOSE")) : 0;
  sc_init (MPI_COMM_WORLD, 0, 0, NULL, verbose ? SC_LP_DEFAULT : SC_LP_ERROR);
  p4est_init (NULL, verbose ? SC_LP_DEFAULT : SC_LP_ERROR);
  auto it = registry ().find (run.prop);
  if (it == registry ().end ()) { if (!run.rank) fprintf (stderr, "unknown property %s\n", argv[1]); MPI_Abort (MPI_COMM_WORLD, 4); }
  int dl = getenv ("VH_DELAY") ? atoi (getenv ("VH_DELAY")) : 0;
  u64 ph = 0;
  for (const char *p = argv[1]; *p; ++p) ph = hcomb (ph, *p);
  entities ();
  for (long k = first; k < first + n; ++k) {
    run.caseno = k;
    run.nfail_case = 0;
    run.desc.clear ();
    /* the workload of a case does not depend on the process count */
    Rng r (hcomb (hcomb (run.seed, ph), hcomb (k, DIM)));
    vh_delay = dl;
    vh_guard = hcomb (hcomb (run.seed, k), 4711) % 3 != 0;
    vh_delay_seed = hcomb (hcomb (run.seed, k), run.rank + 1000 * run.size);
    progress ("begin");
    int mem2 = sc_memory_status (sc_package_id), mem0 = sc_memory_status (-1), mem1 = sc_memory_status (p4est_package_id);
    long req0 = vh_pending_reqs, com0 = vh_live_comms;
    it->second (r);
    vh_delay = vh_guard = 0;
    run.evals++;
    CHK (vh_pending_reqs == req0, "leak-request", "%ld MPI requests were started but never completed", vh_pending_reqs - req0);
    CHK (vh_live_comms == com0, "leak-comm", "%ld communicators were created but not freed", vh_live_comms - com0);
    int m2 = sc_memory_status (sc_package_id), m0 = sc_memory_status (-1), m1 = sc_memory_status (p4est_package_id);
    CHK (m0 == mem0 && m1 == mem1 && m2 == mem2, "leak-memory", "allocation balance default %d p4est %d sc %d after case", m0 - mem0, m1 - mem1, m2 - mem2);
    PMPI_Barrier (MPI_COMM_WORLD);
    CHK (!vh_unmatched (MPI_COMM_WORLD), "leak-message", "a message was sent but never received");
    progress ("end");
    if (run.desc.size () && run.samples.size () < 3 && run.rank == 0) run.samples.push_back (run.desc);
    i64 nf = allsum (run.nfail_total, MPI_COMM_WORLD);
    if (nf > 200) break;
  }
  /* summary */
  std::string keys;
  for (auto & kv : run.cnt) keys += kv.first + "\n";
  std::vector<char> kl (keys.begin (), keys.end ());
  std::vector<char> all = allgatherv (kl, MPI_COMM_WORLD);
  std::set<std::string> ks;
  std::string cur;
  for (char ch : all) if (ch == '\n') { ks.insert (cur); cur.clear (); } else cur += ch;
  std::map<std::string, long> tot;
  for (auto & k : ks) tot[k] = (long) allsum (run.cnt.count (k) ? run.cnt[k] : 0, MPI_COMM_WORLD);
  tot["mpi_messages"] = (long) allsum (vh_msgs, MPI_COMM_WORLD);
  tot["mpi_collectives"] = (long) allsum (vh_colls, MPI_COMM_WORLD);
  tot["guarded_sends"] = (long) allsum (vh_guarded, MPI_COMM_WORLD);
  tot["injected_delays"] = (long) allsum (vh_delays, MPI_COMM_WORLD);
  i64 nf = allsum (run.nfail_total, MPI_COMM_WORLD);
  if (run.rank == 0) {
    FILE *f = fopen ((run.outprefix + ".stats").c_str (), "w");
    if (!f) MPI_Abort (MPI_COMM_WORLD, 4);
    fprintf (f, "{\"prop\": \"%s\", \"dim\": %d, \"size\": %d, \"evals\": %ld, \"judged\": %ld, \"fails\": %ld, \"counters\": {", run.prop.c_str (), DIM, run.size, run.evals, run.judged, (long) nf);
    bool c = false;
    for (auto & kv : tot) { fprintf (f, "%s\"%s\": %ld", c ? ", " : "", kv.first.c_str (), kv.second); c = true; }
    for (auto & kv : run.gcnt) { fprintf (f, "%s\"%s\": %ld", c ? ", " : "", kv.first.c_str (), kv.second); c = true; }
    fprintf (f, "}, \"distinct\": [");
    c = false;
    for (auto d : run.distinct) { fprintf (f, "%s\"%llx\"", c ? ", " : "", (unsigned long long) d); c = true; }
    fprintf (f, "], \"samples\": [");
    c = false;
    for (auto & s : run.samples) {
      std::string m;
      for (char ch : s) m += ch == '"' || ch == '\\' ? '\'' : ch == '\n' ? ' ' : ch;
      fprintf (f, "%s\"%s\"", c ? ", " : "", m.c_str ()); c = true;
    }
    fprintf (f, "]}\n");
    fclose (f);
  }
  PMPI_Barrier (MPI_COMM_WORLD);
  MPI_Finalize ();
  return nf ? 3 : 0;
}
