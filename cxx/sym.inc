// Nodes, decisions and the scheduler of the symbolic build (included with the real "double").
#include <ucontext.h>
#include <sanitizer/common_interface_defs.h>
struct Node { int op, a, b; double c; };
static std::vector<Node> nodes;
static std::map<std::tuple<int, int, int>, int> cons;
static std::map<double, int> consts;
static std::vector<int> prefix;
static size_t dec_nr;
struct Dec { int op, a, b, v; };
static std::vector<Dec> decs;
static std::vector<long> preempt;      // numbers of the yields at which the thread changes
static long yields;
static int nthreads = 1;

static void chk(int i) {
  if (i < 0 || i >= (int)nodes.size()) { printf("undef %d\nend\n", i); fflush(stdout); _Exit(3); }
}
int aes_const(double x) {
  auto it = consts.find(x);
  if (it != consts.end()) return it->second;
  nodes.push_back({0, 0, 0, x});
  return consts[x] = (int)nodes.size() - 1;
}
int aes_input(int k) {
  nodes.push_back({-1, k, 0, 0});
  return (int)nodes.size() - 1;
}
int aes_op(int op, int a, int b) {
  chk(a); chk(b);
  auto key = std::make_tuple(op, a, b);
  auto it = cons.find(key);
  if (it != cons.end()) return it->second;
  nodes.push_back({op, a, b, 0});
  return cons[key] = (int)nodes.size() - 1;
}
static std::map<std::tuple<int, int, int>, int> taken;
bool aes_decide(int op, int a, int b) {
  chk(a); chk(b);
  if (nodes[a].op == 0 && nodes[b].op == 0) {
    double x = nodes[a].c, y = nodes[b].c;
    switch (op) { case 20: return x < y; case 21: return x <= y; case 22: return x > y; case 23: return x >= y; case 24: return x == y; default: return x != y; }
  }
  auto key = std::make_tuple(op, a, b);
  auto it = taken.find(key);
  if (it != taken.end()) return it->second;
  int v = dec_nr < prefix.size() ? prefix[dec_nr] : 0;
  if (++dec_nr > 5000) { printf("undecided loop\nend\n"); fflush(stdout); _Exit(5); }
  decs.push_back({op, a, b, v});
  taken[key] = v;
  return v;
}
long aes_trunc(int a) {
  chk(a);
  if (nodes[a].op == 0) return (long)nodes[a].c;
  printf("unsupported\nend\n"); fflush(stdout); _Exit(4);
}

// -- threads: coroutines that change at the chosen yields ------------------------------
struct Co { ucontext_t ctx; std::vector<char> stack; bool done; };
static std::vector<Co> team;
static int cur = -1;
static int teamsize = 1;
static ucontext_t mainctx;
static void (*team_fn)(void *);
static void *team_data;
static const void *main_stack; static size_t main_size;

static void leave(int to) {             // switch from cur to thread "to" (-1: back to main)
  int from = cur;
  cur = to;
  void *fake = nullptr;
  const void *b = to < 0 ? main_stack : team[to].stack.data();
  size_t s = to < 0 ? main_size : team[to].stack.size();
  __sanitizer_start_switch_fiber(from >= 0 && team[from].done ? nullptr : &fake, b, s);
  swapcontext(from < 0 ? &mainctx : &team[from].ctx, to < 0 ? &mainctx : &team[to].ctx);
  const void *ob; size_t os;
  __sanitizer_finish_switch_fiber(fake, &ob, &os);
}
static int next_thread() {
  for (int k = 1; k <= teamsize; k++) {
    int t = (cur + k) % teamsize;
    if (!team[t].done) return t;
  }
  return -1;
}
static void entry() {
  const void *ob; size_t os;
  __sanitizer_finish_switch_fiber(nullptr, &ob, &os);
  if (main_stack == nullptr) { main_stack = ob; main_size = os; }
  team_fn(team_data);
  team[cur].done = true;
  leave(next_thread());
}
static int atomic_depth = 0;
extern "C" {
void aes_yield() {
  if (cur < 0 || atomic_depth > 0) return;
  yields++;
  for (long p : preempt)
    if (p == yields) {
      int t = next_thread();
      if (t >= 0 && t != cur) leave(t);
    }
}
int omp_get_thread_num() { return cur < 0 ? 0 : cur; }
int omp_get_num_threads() { return cur < 0 ? 1 : teamsize; }
int omp_get_max_threads() { return nthreads; }
int omp_in_parallel() { return cur >= 0; }
int omp_get_num_procs() { return 4; }
void omp_set_num_threads(int n) { nthreads = n; }
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  if (cur >= 0) { fn(data); return; }
  teamsize = n ? (int)n : nthreads;
  if (teamsize > 8) teamsize = 8;
  team.clear();
  team.resize(teamsize);
  team_fn = fn; team_data = data;
  for (auto &c : team) {
    c.stack.assign(256 * 1024, 0);
    c.done = false;
    getcontext(&c.ctx);
    c.ctx.uc_stack.ss_sp = c.stack.data();
    c.ctx.uc_stack.ss_size = c.stack.size();
    c.ctx.uc_link = &mainctx;
    makecontext(&c.ctx, entry, 0);
  }
  leave(0);
  cur = -1;
}
void GOMP_barrier() {}
void GOMP_atomic_start() { atomic_depth++; }
void GOMP_atomic_end() { atomic_depth--; }
void GOMP_critical_start() { atomic_depth++; }
void GOMP_critical_end() { atomic_depth--; }
void GOMP_critical_name_start(void **) { atomic_depth++; }
void GOMP_critical_name_end(void **) { atomic_depth--; }
}
// work sharing with other schedules: chunks in order of demand
static long loop_next, loop_end, loop_incr, loop_chunk; static int loop_left;
extern "C" {
bool GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) {
  if ((loop_incr > 0 && loop_next >= loop_end) || (loop_incr < 0 && loop_next <= loop_end)) return false;
  *s = loop_next; *e = loop_next + loop_chunk * loop_incr;
  if ((loop_incr > 0 && *e > loop_end) || (loop_incr < 0 && *e < loop_end)) *e = loop_end;
  loop_next = *e;
  return true;
}
bool GOMP_loop_nonmonotonic_dynamic_start(long start, long end, long incr, long chunk, long *s, long *e) {
  if (loop_left == 0) { loop_next = start; loop_end = end; loop_incr = incr; loop_chunk = chunk; loop_left = teamsize; }
  return GOMP_loop_nonmonotonic_dynamic_next(s, e);
}
void GOMP_loop_end() { if (loop_left > 0) loop_left--; }
void GOMP_loop_end_nowait() { if (loop_left > 0) loop_left--; }
bool GOMP_loop_dynamic_next(long *s, long *e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_dynamic_start(long a, long b, long c, long d, long *s, long *e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, s, e); }
bool GOMP_loop_nonmonotonic_guided_next(long *s, long *e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long c, long d, long *s, long *e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, s, e); }
}

static void aes_start(std::istream &in) {
  nodes.clear(); cons.clear(); consts.clear(); decs.clear(); taken.clear();
  dec_nr = 0; yields = 0; cur = -1; atomic_depth = 0; loop_left = 0;
  nodes.push_back({0, 0, 0, 0.0});
  consts[0.0] = 0;
  int n, k;
  prefix.clear(); preempt.clear();
  in >> n;
  for (int i = 0; i < n; i++) { in >> k; prefix.push_back(k); }
  in >> n;
  for (int i = 0; i < n; i++) { in >> k; preempt.push_back(k); }
}
static void aes_dump() {
  for (size_t i = 0; i < nodes.size(); i++) {
    if (nodes[i].op == 0) printf("n %zu 0 %a\n", i, nodes[i].c);
    else printf("n %zu %d %d %d\n", i, nodes[i].op, nodes[i].a, nodes[i].b);
  }
  for (auto &d : decs) printf("d %d %d %d %d\n", d.op, d.a, d.b, d.v);
  printf("y %ld\n", yields);
}
static void aes_finish() { aes_dump(); }
