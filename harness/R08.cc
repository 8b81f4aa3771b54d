// Drives progress providers and the registry of status consumers.
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>

#include "status_consumer_registry.h"
#include "status_provider.h"
#include "vh.h"
using namespace devtools_crosstool_autofdo;
using namespace vh;

static std::mutex g_log;
static void Log(const char* e, Object o) {
  std::lock_guard<std::mutex> g(g_log);
  Emit(e, std::move(o));
}

static void RunTree(const Array& ops) {
  std::map<int64_t, std::unique_ptr<StatusProvider>> own;
  std::map<int64_t, StatusProvider*> all;
  for (const Value& v : ops) {
    Object e(*v.getAsObject());
    std::string op = S(e, "op");
    int64_t id = I(e, "id");
    if (op == "leaf") {
      own[id] = std::make_unique<DefaultStatusProvider>(S(e, "job"));
      all[id] = own[id].get();
    } else if (op == "group") {
      own[id] = std::make_unique<MultiStatusProvider>(S(e, "job"));
      all[id] = own[id].get();
    } else if (op == "add") {
      static_cast<MultiStatusProvider*>(all.at(id))->AddStatusProvider(I(e, "w"), std::move(own.at(I(e, "sub"))));
    } else if (op == "set") {
      static_cast<DefaultStatusProvider*>(all.at(id))->SetProgress(I(e, "p"));
    } else if (op == "done") {
      all.at(id)->SetDone();
    }
    Array r;
    for (auto& [k, p] : all)
      r.push_back(Object{{"id", k}, {"p", p->GetProgress()}, {"done", p->IsDone()}, {"job", p->GetJob()}});
    e["r"] = std::move(r);
    Emit("Tree", std::move(e));
  }
}

static void Log(const char* e, std::initializer_list<Object::KV> l) { Log(e, Object(l)); }

// A consumer's calls wait at a gate, which the script opens.
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  int64_t tickets = 0;
  bool open = false;
  void Pass() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return open || tickets > 0; });
    if (!open) tickets--;
  }
  void Give() {
    std::lock_guard<std::mutex> l(m);
    tickets = 1;
    cv.notify_all();
  }
  void Open() {
    std::lock_guard<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};
static Gate g_gate;
static thread_local int64_t t_id = 0;
static int g_alive = 0, g_died = 0;
static std::vector<DefaultStatusProvider*> g_work;

struct Watcher : StatusConsumer {
  int64_t id;
  explicit Watcher(int64_t i) : id(i) { g_alive++; }
  ~Watcher() override {
    g_alive--;
    g_died++;
  }
  void Tell(const char* op, int64_t work) {
    Log("Call", Object{{"t", t_id}, {"c", id}, {"op", op}, {"work", work}});
    g_gate.Pass();
    Log("Back", {{"t", t_id}, {"c", id}});
  }
  void Start(StatusProvider& p) override {
    int64_t w = 0;
    for (size_t i = 0; i < g_work.size(); i++)
      if (g_work[i] == &p) w = i + 1;
    Tell("start", w);
  }
  void Stop() override { Tell("stop", 0); }
};

struct Worker {
  std::mutex m;
  std::condition_variable cv;
  bool has = false, quit = false;
  std::string op;
  int64_t arg = 0;
};

static void RunThreads(const Object& o) {
  auto reg = std::make_unique<StatusConsumerRegistry>();
  bool global = Bo(o, "global");
  StatusConsumerRegistry& r = global ? StatusConsumerRegistry::GetInstance() : *reg;
  int n = I(o, "n");
  for (int i = 0; i < 3; i++) g_work.push_back(new DefaultStatusProvider("w"));
  std::vector<std::unique_ptr<Worker>> ws;
  std::vector<std::thread> ts;
  std::vector<StatusConsumerRegistry*> seen(n + 1);
  for (int i = 1; i <= n; i++) ws.push_back(std::make_unique<Worker>());
  for (int i = 1; i <= n; i++)
    ts.emplace_back([&, i] {
      t_id = i;
      Worker& w = *ws[i - 1];
      seen[i] = &StatusConsumerRegistry::GetInstance();
      while (true) {
        std::string op;
        int64_t arg;
        {
          std::unique_lock<std::mutex> l(w.m);
          w.cv.wait(l, [&] { return w.has || w.quit; });
          if (!w.has) return;
          op = w.op;
          arg = w.arg;
        }
        if (op == "register") r.Register(std::make_unique<Watcher>(arg));
        if (op == "start") r.Start(*g_work.at(arg - 1));
        if (op == "stop") r.Stop();
        Log("Ret", {{"t", i}});
        std::lock_guard<std::mutex> l(w.m);
        w.has = false;
        w.cv.notify_all();
      }
    });
  Log("Threads", {{"n", n}, {"same", true}});
  int64_t us = I(o, "us", 300);
  for (const Value& v : A(o, "steps")) {
    const Array& s = *v.getAsArray();
    if (AS(s, 0) == "tell") {
      g_gate.Give();
    } else {
      Worker& w = *ws.at(AI(s, 1) - 1);
      std::unique_lock<std::mutex> l(w.m);
      if (w.has) continue;  // still at the one before
      Log("Inv", {{"t", AI(s, 1)}, {"op", AS(s, 0)}, {"c", AI(s, 2)}});
      w.op = AS(s, 0);
      w.arg = AI(s, 2);
      w.has = true;
      w.cv.notify_all();
    }
    usleep(us);
  }
  g_gate.Open();
  for (auto& w : ws) {
    std::unique_lock<std::mutex> l(w->m);
    w->cv.wait(l, [&] { return !w->has; });
    w->quit = true;
    w->cv.notify_all();
  }
  for (auto& t : ts) t.join();
  bool same = true;
  for (int i = 1; i <= n; i++) same &= seen[i] == &StatusConsumerRegistry::GetInstance();
  Log("Threads", {{"n", n}, {"same", same}});
  if (!global) {
    reg.reset();
    Log("Gone", {{"alive", g_alive}, {"died", g_died}});
  }
}

static void Run(const Object& o) {
  if (o.get("tree")) RunTree(A(o, "tree"));
  if (o.get("steps")) RunThreads(o);
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }
