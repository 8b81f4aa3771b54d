// Drives SpeTidPidProvider.
#include "perfgen.h"
#include "spe_tid_pid_provider.h"
using namespace devtools_crosstool_autofdo;
using namespace vh;

static void Run(const Object& o) {
  quipper::PerfDataProto p;
  // Counter values stand for (K << shift) + n, times for K * mult + zbase + n.
  // A counter of finer grain has k more bits, shifted out, that do not matter.
  uint64_t K = U64(o, "K", 0), tbase = 0, cbase = 0;
  int fine = I(o, "fine", 0);
  if (const Object* c = o.getObject("conv")) {
    auto* t = p.add_events()->mutable_time_conv_event();
    uint64_t zb = U64(o, "zbase", 0);
    cbase = K << I(*c, "shift");
    tbase = K * I(*c, "mult") + zb;
    t->set_time_shift(I(*c, "shift") + fine);
    t->set_time_mult(I(*c, "mult"));
    t->set_time_zero(zb + I(*c, "zero"));
    t->set_time_cycles((cbase + I(*c, "cycles")) << fine);
    t->set_time_mask((static_cast<uint64_t>(I(*c, "mod")) << fine) - 1);
    t->set_cap_user_time_short(Bo(*c, "short"));
    Object e(*c);
    Emit("Conv", std::move(e));
  }
  auto T = [&](int64_t n) { return n <= 0 ? 0 : tbase + n; };
  for (const Value& v : A(o, "events")) {
    const Object& e = *v.getAsObject();
    std::string k = S(e, "k");
    const Array &f = A(e, "f"), &i = A(e, "i");
    auto* pe = p.add_events();
    quipper::PerfDataProto::SampleInfo* info = nullptr;
    if (k == "fork") {
      auto* x = pe->mutable_fork_event();
      x->set_pid(AI(f, 0));
      x->set_tid(AI(f, 1));
      x->set_fork_time_ns(T(AI(f, 2)));
      x->set_ppid(AI(f, 0) + 1);
      x->set_ptid(AI(f, 1) + 1);
      info = x->mutable_sample_info();
    } else if (k == "sample") {
      auto* x = pe->mutable_sample_event();
      x->set_pid(AI(f, 0));
      x->set_tid(AI(f, 1));
      x->set_sample_time_ns(T(AI(f, 2)));
    } else if (k == "comm") {
      auto* x = pe->mutable_comm_event();
      x->set_pid(AI(f, 0));
      x->set_tid(AI(f, 1));
      info = x->mutable_sample_info();
    } else {
      auto* x = pe->mutable_mmap_event();
      x->set_pid(AI(f, 0));
      x->set_tid(AI(f, 1));
      info = x->mutable_sample_info();
    }
    if (info && i.size()) {
      info->set_pid(AI(i, 0));
      info->set_tid(AI(i, 1));
      info->set_sample_time_ns(T(AI(i, 2)));
    }
    Array none{0, 0, 0};
    Emit("Event", {{"k", k}, {"f", C(f)}, {"i", info && i.size() ? C(i) : C(none)}});
  }
  SpeTidPidProvider prov(p.events());
  for (const Value& v : A(o, "queries")) {
    const Array& q = *v.getAsArray();
    quipper::ArmSpeDecoder::Record r;
    int64_t ctx = AI(q, 0);
    r.context.id = AI(q, 1);
    r.context.el1 = ctx & 1;
    r.context.el2 = ctx & 2;
    r.timestamp = ((cbase + AI(q, 2)) << fine) + (fine ? I(o, "low", 0) : 0);
    auto pid = prov.GetPid(r);
    Emit("Query", {{"ctx", ctx != 0}, {"tid", AI(q, 1)}, {"cycles", AI(q, 2)}, {"ok", pid.ok()}, {"r", pid.ok() ? *pid : 0}});
  }
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }
