// C20: damaged or hostile bytes never crash a process or become a valid message.
#include "cs.h"

#include <deque>
#include <list>
#include <optional>
#include <set>
#include <tuple>
#include <variant>

#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <maf/utils/serialization/Serializer.h>
#include <maf/utils/serialization/VariantSerializer.h>

#include <cstring>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace lipc = maf::messaging::ipc::local;
using lipc::createProxy;
using lipc::createStub;
using maf::util::directExecutor;

namespace rich {
enum class Colour : short { Red, Green, Blue };
using Table = std::map<string, int>;
using Names = vector<string>;
using Note = std::shared_ptr<string>;
using Trio = std::tuple<short, double, string>;
using Choice = std::variant<int, string, Names>;
using Couple = std::pair<int, string>;
using Couples = std::list<std::pair<Colour, std::set<int>>>;
using Flags = vector<char>;
}  // namespace rich
// clang-format off
#include <maf/utils/serialization/SerializableObjectBegin.mc.h>
namespace rich {
OBJECT(Part)
  MEMBERS((std::string, name), (int, count), (rich::Names, tags), (rich::Note, note))
ENDOBJECT(Part)
using Parts = vector<Part>;
using Stock = std::map<int, Part>;
}
#include <maf/utils/serialization/SerializableObjectEnd.mc.h>
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(order)
    INPUT((int, id), (rich::Parts, parts), (rich::Table, table), (rich::Note, note), (rich::Trio, trio), (rich::Choice, choice))
    OUTPUT((int, id), (rich::Couples, couples), (rich::Parts, parts), (rich::Couple, couple))
ENDREQUEST(order)
PROPERTY(store)
    STATUS((int, v), (rich::Stock, stock), (rich::Trio, trio), (rich::Flags, flags))
ENDPROPERTY(store)
SIGNAL(alarm)
    ATTRIBUTES((int, n), (rich::Choice, choice), (rich::Names, lines))
ENDSIGNAL(alarm)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
// clang-format on

using Order = order_request::input;
using Bill = order_request::output;
using Store = store_property::status;
using Alarm = alarm_signal::attributes;

namespace {
constexpr uint64_t BOUND = 8000 * MS;
constexpr size_t MAXMSG = 6000;          // no message of the workload is longer
constexpr uint64_t MAXALLOC = 256 * MAXMSG;
const char *const SRV = "srv";

// ---- values that follow from a number --------------------------------------
string text(int a, int b) {
  string s = "x" + std::to_string(a) + "." + std::to_string(b);
  if ((a + b) % 5 == 1) s.append((size_t)(20 + b % 50), (char)('a' + a % 26));
  if ((a * 7 + b) % 11 == 0) s.clear();
  return s;
}
rich::Names names(int id) {
  rich::Names n;
  for (int i = 0; i < id % 4; i++) n.push_back(text(id, i));
  return n;
}
rich::Note note(int id) { return id % 3 ? std::make_shared<string>(text(id, 77)) : nullptr; }
rich::Part part(int id) { return rich::Part{text(id, 1), id * 3, names(id), note(id + 1)}; }
rich::Parts parts(int id) {
  rich::Parts p;
  for (int i = 0; i < id % 3; i++) p.push_back(part(id + i));
  return p;
}
rich::Table table(int id) {
  rich::Table t;
  for (int i = 0; i < (id + 1) % 4; i++) t[text(id + i, i)] = id + i;
  return t;
}
rich::Trio trio(int id) { return {(short)id, id * 0.5, text(id, 9)}; }
rich::Choice choice(int id) {
  switch (id % 3) {
    case 0: return id;
    case 1: return text(id, 4);
    default: return names(id);
  }
}
rich::Couples couples(int id) {
  rich::Couples c;
  for (int i = 0; i < id % 4; i++) c.push_back({(rich::Colour)(i % 3), {id, id + i, id - i}});
  return c;
}
rich::Stock stock(int id) {
  rich::Stock s;
  for (int i = 0; i < id % 3; i++) s.emplace(id + i, part(id + i));
  return s;
}
rich::Flags flags(int id) { return rich::Flags((size_t)(id % 40), (char)id); }
std::shared_ptr<Order> order(int id) { return std::make_shared<Order>(id, parts(id), table(id), note(id), trio(id), choice(id)); }
std::shared_ptr<Bill> bill(int id) { return std::make_shared<Bill>(id, couples(id), parts(id + 1), rich::Couple{id, text(id, 3)}); }
std::shared_ptr<Store> store(int v) { return std::make_shared<Store>(v, stock(v), trio(v), flags(v)); }
std::shared_ptr<Alarm> alarm_(int n) { return std::make_shared<Alarm>(n, choice(n), names(n + 1)); }

bool same(const rich::Note &a, const rich::Note &b) { return a && b ? *a == *b : !a == !b; }
bool same(const rich::Part &a, const rich::Part &b) { return a.get_name() == b.get_name() && a.get_count() == b.get_count() && a.get_tags() == b.get_tags() && same(a.get_note(), b.get_note()); }
bool same(const rich::Parts &a, const rich::Parts &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
  return true;
}
bool same(const rich::Stock &a, const rich::Stock &b) {
  if (a.size() != b.size()) return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
  return true;
}
bool intact(const Order &o) {
  int id = o.get_id();
  return same(o.get_parts(), parts(id)) && o.get_table() == table(id) && same(o.get_note(), note(id)) && o.get_trio() == trio(id) && o.get_choice() == choice(id);
}
bool intact(const Bill &o) { int id = o.get_id(); return o.get_couples() == couples(id) && same(o.get_parts(), parts(id + 1)) && o.get_couple() == rich::Couple{id, text(id, 3)}; }
bool intact(const Store &o) { int v = o.get_v(); return same(o.get_stock(), stock(v)) && o.get_trio() == trio(v) && o.get_flags() == flags(v); }
bool intact(const Alarm &o) { return o.get_choice() == choice(o.get_n()) && o.get_lines() == names(o.get_n() + 1); }
// looks at all of a value that may be anything but must be valid memory
std::atomic<unsigned> g_sum{0};
void touch(const string &s) { unsigned n = 0; for (char c : s) n += (unsigned char)c; g_sum += n; }
void touch(const rich::Names &v) { for (auto &s : v) touch(s); }
void touch(const rich::Note &n) { if (n) touch(*n); }
void touch(const rich::Part &p) { touch(p.get_name()); touch(p.get_tags()); touch(p.get_note()); }
void touch(const rich::Choice &c) { if (auto s = std::get_if<string>(&c)) touch(*s); else if (auto n = std::get_if<rich::Names>(&c)) touch(*n); }
void touch(const Order &o) {
  for (auto &p : o.get_parts()) touch(p);
  for (auto &[k, v] : o.get_table()) { touch(k); g_sum += (unsigned)v; }
  touch(o.get_note());
  touch(std::get<2>(o.get_trio()));
  touch(o.get_choice());
}
void touch(const Bill &o) {
  for (auto &p : o.get_parts()) touch(p);
  for (auto &[c, s] : o.get_couples()) g_sum += (unsigned)s.size();
  touch(o.get_couple().second);
}
void touch(const Store &o) { for (auto &[k, p] : o.get_stock()) touch(p); touch(std::get<2>(o.get_trio())); for (char c : o.get_flags()) g_sum += (unsigned char)c; }
void touch(const Alarm &o) { touch(o.get_choice()); touch(o.get_lines()); }

// ---- damage ------------------------------------------------------------------
// What a connection carries is taken as it was recorded; that the first bytes
// tell the length is used to get past the framing only, never to judge.
bool framed(const string &s) {
  uint32_t n;
  if (s.size() < 4) return false;
  memcpy(&n, s.data(), 4);
  return n == s.size() - 4;
}
string frame(const string &body, uint32_t n) { return string((const char *)&n, 4) + body; }
string frame(const string &body) { return frame(body, (uint32_t)body.size()); }
uint32_t absurd(size_t n) {
  static const uint32_t v[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0x10000000u, 0x00ffffffu, 0x00200000u, 0x00010000u, 300};
  switch (sim_choose(3)) {
    case 0: return v[sim_choose(sizeof v / sizeof *v)];
    case 1: return (uint32_t)(n + 1 + sim_choose(5));
    default: return (uint32_t)sim_choose(n + 1);
  }
}
string mutate(string b, const vector<string> &bodies) {
  for (int i = 0, n = 1 + (int)sim_choose(3); i < n && !b.empty(); i++) {
    size_t at = (size_t)sim_choose(b.size());
    switch (sim_choose(8)) {
      case 0: b[at] = (char)(b[at] ^ (1 << sim_choose(8))); break;
      case 1: b[at] = (char)sim_choose(8); break;
      case 2: b[at] = (char)sim_choose(256); break;
      case 3: { uint32_t x = absurd(b.size()); memcpy(&b[at], &x, std::min<size_t>(4, b.size() - at)); break; }
      case 4: b.resize(at); break;
      case 5: for (uint64_t k = 0, m = 1 + sim_choose(40); k < m; k++) b += (char)sim_choose(256); break;
      case 6: { auto &o = bodies[sim_choose(bodies.size())]; size_t from = o.empty() ? 0 : (size_t)sim_choose(o.size()); b = b.substr(0, at) + o.substr(from); break; }
      default: b.erase(at, 1 + (size_t)sim_choose(8)); break;
    }
  }
  if (b.size() > MAXMSG) b.resize(MAXMSG);
  return b;
}
// another name for an address with its length before it
string readdress(string b, const string &from, const string &to) {
  uint32_t n = (uint32_t)from.size(), m = (uint32_t)to.size();
  size_t at = b.find(string((const char *)&n, 4) + from);
  if (at != string::npos) b.replace(at, 4 + from.size(), string((const char *)&m, 4) + to);
  return b;
}
}  // namespace

// ---- parameters cut short or damaged, without any transport -------------------
namespace {
template <class T> string encode(const T &v) {
  maf::srz::OByteStream os;
  maf::srz::SR sr(os);
  sr << v;
  return os.bytes();
}
template <class T> bool decode(const string &b, T &v) {
  maf::srz::IByteStream is(b);
  maf::srz::IByteStreamView view(is);
  try {
    maf::srz::DSR ds(view);
    ds >> v;
    return true;
  } catch (const std::exception &) {
    return false;
  }
}
template <class T, class Same> void cuts(const char *what, const T &v, Same same) {
  string b = encode(v);
  { T r{}; CHECK(decode(b, r) && same(r, v), "damaged", "a %s of %zu bytes is not read as written", what, b.size()); }
  size_t n = b.size() ? (size_t)sim_choose(b.size()) : 0;
  if (b.size()) {
    T r{};
    CHECK(!decode(b.substr(0, n), r), "cut-accepted", "a %s of %zu bytes cut down to %zu is taken for whole", what, b.size(), n);
  }
  string m = mutate(b, {b});
  T r{};
  static_cast<void>(decode(m, r));
}
template <class T> void cuts(const char *what, const T &v) { cuts(what, v, [](const T &a, const T &b) { return a == b; }); }
}  // namespace

SIM_SCENARIO(c20_decode, 0, 0, 0) {
  sim_alloc_limit(MAXALLOC);
  for (int i = 0, n = 3 + (int)sim_choose(8); i < n; i++) {
    int id = (int)sim_choose(200);
    auto ptr = [](const auto &a, const auto &b) { return a && b && intact(*a) && a->get_id() == b->get_id(); };
    switch (sim_choose(16)) {
      case 0: cuts("request", order(id), ptr); break;
      case 1: cuts("response", bill(id), ptr); break;
      case 2: cuts("status", store(id), [](auto &a, auto &b) { return a && intact(*a) && a->get_v() == b->get_v(); }); break;
      case 3: cuts("signal", alarm_(id), [](auto &a, auto &b) { return a && intact(*a) && a->get_n() == b->get_n(); }); break;
      case 4: cuts("list of names", names(id)); break;
      case 5: cuts("table", table(id)); break;
      case 6: cuts("tuple", trio(id)); break;
      case 7: cuts("variant", choice(id)); break;
      case 8: cuts("pair", rich::Couple{id, text(id, 2)}); break;
      case 9: cuts("list of pairs", couples(id)); break;
      case 10: cuts("string", text(id, id)); break;
      case 11: cuts("pointer", note(id), [](auto &a, auto &b) { return same(a, b); }); break;
      case 12: cuts("vector of numbers", flags(id)); break;
      case 13: cuts("wide string", std::wstring((size_t)(id % 9), (wchar_t)id)); break;
      case 14: cuts("map of vectors", std::map<int, vector<std::pair<double, string>>>{{id, {{id * 1.5, text(id, 1)}, {2, ""}}}, {id + 1, {}}}); break;
      case 15: cuts("number", id * 1000003ll); break;
    }
  }
}

// ---- processes -----------------------------------------------------------------
namespace {
enum Kind { Garbage, Cut, Wild };   // what the hostile process does
struct World {
  Kind kind;
  std::set<int> values, alarms;   // published
  int lastValue = 0, lastAlarm = 0, nextOrder = 0, poked = 0, pokesHandled = 0;
  std::map<int, int> sent, handled;   // order -> times
  std::atomic<int> cmd{0}, did{0};
  std::atomic<bool> attackOver{false}, over{false}, finalReq{false};
};
struct Client {
  int k, pid, node = -1;
  bool hostile = false, fresh = false;   // fresh: came after the attack
  int states = 0, lastState = -1;
  bool registered = false, ended = false;
  int finalOk = -1;
  vector<int> values, alarms;
};
struct SrvArg { World *w; Flag up; };
struct CliArg { World *w; Client *c; vector<int> pids; };
}  // namespace

extern "C" void c20_server(void *p) {
  auto *a = (SrvArg *)p;
  World &w = *a->w;
  AsyncProcessor proc;
  proc.launch();
  auto exec = sim_choose(2) ? maf::util::ExecutorIFPtr(proc->getAsyncExecutor()) : directExecutor();
  auto stub = createStub(Address{SRV, 0}, "svc", exec);
  CHECK(stub, "create", "no stub");
  stub->registerRequestHandler<Order>([&](lipc::Request<Order> r) {
    auto in = r.getInput();
    if (!in) {   // cut short: nothing but refusing it can be done
      { SimQuiet z; sim_ev("refused", 0, 0, 0, 0); CHECK(w.kind != Garbage, "invented", "a request that nobody sent, without its input"); }
      r.error("bad input");
      return;
    }
    touch(*in);
    bool ok = intact(*in);
    int id = in->get_id();
    {
      SimQuiet z;
      sim_ev("handled", id, ok, 0, 0);
      CHECK(ok || w.kind == Wild, "made-up", "the handler was given a request (id %d) with a made-up input", id);
      CHECK(w.sent.count(id) || w.kind == Wild, "invented", "the handler was given request %d that nobody sent", id);
      CHECK(++w.handled[id] == 1 || w.kind == Wild, "twice", "request %d was handled %d times", id, w.handled[id]);
    }
    r.respond(bill(id));
  });
  stub->registerRequestHandler<poke_request>([&](lipc::Request<poke_request> r) {
    {
      SimQuiet z;
      sim_ev("poked", w.pokesHandled, w.poked, 0, 0);
      CHECK(++w.pokesHandled <= w.poked || w.kind == Wild, "invented", "the handler was given %d requests without input, %d were sent", w.pokesHandled, w.poked);
    }
    r.respond();
  });
  auto publish = [&](bool status) {
    int v;
    { SimQuiet z; v = status ? ++w.lastValue : ++w.lastAlarm; (status ? w.values : w.alarms).insert(v); sim_ev("publish", status, v, 0, 0); }
    if (status) stub->setStatus(store(v));
    else stub->broadcastSignal(alarm_(v));
  };
  publish(true);
  stub->startServing();
  a->up.set();
  while (!w.cmd.load() && !w.attackOver.load()) {
    switch (sim_choose(4)) {
      case 0: publish(true); break;
      case 1: publish(false); break;
      default: sim_sleep((1 + sim_choose(80)) * MS); break;
    }
    sim_sleep((1 + sim_choose(30)) * MS);
  }
  while (!w.over.load()) {
    static_cast<void>(waitFor([&] { return w.over.load() || w.cmd.load() > w.did.load(); }, 0));
    int c = w.cmd.load();
    if (c == w.did.load()) continue;
    publish(true);
    for (int i = 0; i < 3; i++) publish(false);
    publish(true);
    w.did = c;
  }
  // the process goes on until it is killed
}

static void c20_send(World &w, Client &c, const std::shared_ptr<lipc::Proxy> &proxy, bool final) {
  int id;
  { SimQuiet z; id = w.nextOrder++; w.sent[id]++; sim_ev("request", id, c.k, 0, 0); }
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  auto r = proxy->sendRequest<Bill>(order(id), &st, RequestTimeoutMs{final ? 3000 : 500});
  auto out = r.getOutput();
  bool ok = out && intact(*out) && out->get_id() == id;
  if (out) touch(*out);
  SimQuiet z;
  sim_ev("answer", id, (int)st, out ? out->get_id() : -1, r.getError() ? 1 : 0);
  if (w.kind != Wild || c.fresh) CHECK(!out || ok, "made-up", "request %d was answered with a made-up output", id);
  if (w.kind == Garbage || (final && (w.kind != Wild || c.fresh))) CHECK(ok, "not-served", "request %d of client %d got no answer (call status %d)", id, c.k, (int)st);
  if (final) c.finalOk = ok;
}

static void c20_poke(World &w, const std::shared_ptr<lipc::Proxy> &proxy) {
  { SimQuiet z; w.poked++; }
  proxy->sendRequest<poke_request>(nullptr, RequestTimeoutMs{500});
}

extern "C" void c20_client(void *p) {
  auto *a = (CliArg *)p;
  World &w = *a->w;
  Client &c = *a->c;
  bool judged = w.kind != Wild || c.fresh;
  AsyncProcessor proc;
  proc.launch();
  auto proxy = createProxy(Address{SRV, 0}, "svc", proc->getAsyncExecutor());
  CHECK(proxy, "create", "no proxy");
  auto obs = proxy->onServiceStatusChanged([&](Availability, Availability n) { SimQuiet z; c.states++; c.lastState = n == Availability::Available; sim_ev("state", c.k, c.lastState, 0, 0); });
  CHECK(waitFor([&] { return c.lastState == 1; }, BOUND) || !judged, "not-available", "client %d is not told that the service is available", c.k);
  auto given = [&](const char *what, vector<int> &got, int v, bool ok, const std::set<int> &known, bool again) {
    SimQuiet z;
    sim_ev("given", c.k, v, ok, got.size());
    CHECK(ok || !judged, "made-up", "client %d was given a %s (%d) with made-up content", c.k, what, v);
    CHECK(known.count(v) || !judged, "invented", "client %d was given %s %d that was never published", c.k, what, v);
    CHECK(got.empty() || got.back() < v || (again && got.back() == v) || !judged, "order", "client %d was given %s %d after %d", c.k, what, v, got.back());
    got.push_back(v);
  };
  // the signal first: who gets the status is registered for the signal, too
  auto id2 = proxy->registerSignal<Alarm>([&](const std::shared_ptr<Alarm> &v) {
    if (!v) { SimQuiet z; CHECK(w.kind != Garbage && !c.fresh, "made-up", "client %d was given an empty signal", c.k); return; }
    touch(*v);
    given("signal", c.alarms, v->get_n(), intact(*v), w.alarms, false);
  });
  auto id1 = proxy->registerStatus<Store>([&](const std::shared_ptr<Store> &v) {
    if (!v) { SimQuiet z; CHECK(w.kind != Garbage && !c.fresh, "made-up", "client %d was given an empty status", c.k); return; }
    touch(*v);
    given("status", c.values, v->get_v(), intact(*v), w.values, true);
  });
  { SimQuiet z; c.registered = id1.valid() && id2.valid(); CHECK(c.registered || !judged, "not-registered", "client %d could not register", c.k); }
  while (!w.attackOver.load() && !w.over.load()) {
    switch (sim_choose(4)) {
      case 0: c20_send(w, c, proxy, false); break;
      case 3: c20_poke(w, proxy); break;
      case 1: {
        auto v = proxy->getStatus<Store>(nullptr, RequestTimeoutMs{500});
        if (v) { touch(*v); bool ok = intact(*v); SimQuiet z; CHECK(!judged || (ok && w.values.count(v->get_v())), "made-up", "client %d read a made-up status", c.k); }
        else { SimQuiet z; CHECK(w.kind != Garbage, "not-served", "client %d could not read the status", c.k); }
        break;
      }
      default: break;
    }
    sim_sleep((1 + sim_choose(60)) * MS);
  }
  static_cast<void>(waitFor([&] { return w.finalReq.load() || w.over.load(); }, 0));
  if (judged && w.finalReq.load() && !w.over.load()) c20_send(w, c, proxy, true);
  static_cast<void>(waitFor([&] { return w.over.load(); }, 0));
  proxy->unregister(id1);
  proxy->unregister(id2);
  proc.stopAndWait();
  SimQuiet z;
  c.ended = true;
}

// sends bytes as they are to an address, maybe in pieces, maybe not closing
static int c20_raw(const string &addr, const string &bytes, bool hold) {
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  if (fd < 0) return -1;
  sockaddr_un sa;
  memset(&sa, 0, sizeof sa);
  sa.sun_family = AF_UNIX;
  memcpy(sa.sun_path + 1, addr.data(), std::min(addr.size(), sizeof sa.sun_path - 2));
  if (connect(fd, (sockaddr *)&sa, sizeof sa) == 0) {
    size_t done = 0, piece = sim_choose(3) ? bytes.size() : 1 + (size_t)sim_choose(64);
    while (done < bytes.size()) {
      ssize_t k = send(fd, bytes.data() + done, std::min(piece, bytes.size() - done), MSG_NOSIGNAL);
      if (k <= 0) { if (errno == EINTR) continue; break; }
      done += (size_t)k;
      if (sim_choose(20) == 0) sim_sleep(sim_choose(20) * MS);
    }
    if (hold) return fd;
  }
  close(fd);
  return -1;
}

extern "C" void c20_hostile(void *p) {
  auto *a = (CliArg *)p;
  World &w = *a->w;
  Client &c = *a->c;
  int me = sim_node();
  string mine = SRV + std::to_string(c.pid);
  AsyncProcessor proc;
  proc.launch();
  std::shared_ptr<lipc::Proxy> proxy;
  if (w.kind != Garbage) {   // takes part to have messages of its own
    proxy = createProxy(Address{SRV, 0}, "svc", proc->getAsyncExecutor());
    CHECK(proxy, "create", "no proxy");
    static_cast<void>(waitFor([&] { return proxy->serviceStatus() == Availability::Available; }, BOUND));
    proxy->registerStatus<Store>([](const std::shared_ptr<Store> &) {});
    proxy->registerSignal<Alarm>([](const std::shared_ptr<Alarm> &) {});
    for (int i = 0, n = 1 + (int)sim_choose(3); i < n; i++) {
      if (sim_choose(3)) c20_send(w, c, proxy, false);
      else c20_poke(w, proxy);
    }
    sim_sleep(sim_choose(100) * MS);
  }
  vector<string> addrs{SRV};
  for (int pid : a->pids) addrs.push_back(SRV + std::to_string(pid));
  vector<int> held;
  for (int i = 0, n = 1 + (int)sim_choose(30); i < n; i++) {
    string bytes, to = addrs[sim_choose(addrs.size())];
    vector<string> own, bodies;       // streams this process took part in; bodies of all
    vector<string> dest;
    {
      SimQuiet z;
      for (size_t t = 0; t < sim_tap_count(); t++) {
        const char *d, *b;
        int node;
        size_t len = sim_tap_get(t, &d, &node, &b);
        if (len == 0 || len > MAXMSG) continue;
        string s(b, len);
        if (!framed(s)) continue;
        bodies.push_back(s.substr(4));
        if (w.kind == Wild || node == me || mine == d) { own.push_back(s.substr(4)); dest.push_back(d); }
      }
    }
    if (w.kind == Garbage || own.empty()) {
      string junk;
      for (uint64_t k = 0, m = sim_choose(2) ? sim_choose(12) : sim_choose(300); k < m; k++) junk += (char)sim_choose(256);
      switch (sim_choose(4)) {
        case 0: bytes = junk; break;                                      // whatever
        case 1: bytes = frame(junk); break;                               // of a right length
        case 2: bytes = frame(junk, absurd(junk.size())); break;          // of a wrong length
        default:                                                          // a message broken off
          if (!bodies.empty()) { bytes = frame(bodies[sim_choose(bodies.size())]); bytes.resize((size_t)sim_choose(bytes.size())); }
      }
    } else {
      size_t k = (size_t)sim_choose(own.size());
      if (sim_choose(2)) to = dest[k] == mine ? addrs[sim_choose(addrs.size())] : dest[k];
      if (w.kind == Cut) bytes = frame(own[k].substr(0, (size_t)sim_choose(own[k].size())));
      else {
        string b = own[k];
        if (sim_choose(4) == 0) b = readdress(b, mine, addrs[sim_choose(addrs.size())]);
        if (sim_choose(6)) b = mutate(b, bodies);
        bytes = sim_choose(8) ? frame(b) : frame(b, absurd(b.size()));
      }
    }
    { SimQuiet z; sim_ev("attack", (int64_t)bytes.size(), to == SRV, 0, 0); }
    int fd = c20_raw(to, bytes, held.size() < 20 && sim_choose(6) == 0);
    if (fd >= 0) held.push_back(fd);
    if (sim_choose(3) == 0) sim_sleep(sim_choose(60) * MS);
    if (proxy && sim_choose(8) == 0) c20_send(w, c, proxy, false);
  }
  if (sim_choose(2)) for (int fd : held) close(fd);
  static_cast<void>(waitFor([&] { return w.over.load(); }, sim_choose(2) ? 1 : 2000 * MS));
  SimQuiet z;
  c.ended = true;   // goes on, holding what it holds, until it is killed
}

static void attack(Kind kind) {
  auto *wp = new World;   // never freed: processes that use it get killed
  World &w = *wp;
  w.kind = kind;
  sim_tap(1);
  sim_alloc_limit(MAXALLOC);
  SrvArg *sa;
  { SimQuiet z; sa = new SrvArg{&w, {}}; }
  Pids pids;
  int srv = sim_node_start("c20_server", sa, pids.next());
  CHECK(srv > 0, "harness", "no node left");
  CHECK(sa->up.wait(BOUND), "not-served", "the server does not come up");
  vector<Client *> clients;
  auto start = [&](const char *entry, int pid) {
    Client *c;
    CliArg *ca;
    { SimQuiet z; c = new Client; c->k = (int)clients.size(); c->pid = pid; ca = new CliArg{&w, c, {}}; for (auto *x : clients) ca->pids.push_back(x->pid); clients.push_back(c); }
    c->hostile = !strcmp(entry, "c20_hostile");
    c->fresh = w.attackOver.load();
    c->node = sim_node_start(entry, ca, pid);
    CHECK(c->node > 0, "harness", "no node left");
    return c;
  };
  for (int i = 0, n = 1 + (int)sim_choose(2); i < n; i++) start("c20_client", pids.next());
  if (sim_choose(2)) sim_sleep(sim_choose(200) * MS);
  Client *bad = start("c20_hostile", pids.next());
  CHECK(waitFor([&] { return bad->ended; }, 60000 * MS), "stuck", "the hostile process gets stuck: somebody neither reads nor closes");
  bool killed = sim_choose(2);
  if (killed) sim_node_kill(bad->node);
  sim_faults_stop();
  w.attackOver = true;
  sim_sleep(1500 * MS);
  start("c20_client", pids.next());
  auto judged = [&](Client &c) { return !c.hostile && (kind != Wild || c.fresh); };
  auto expect = [&](const char *cls, const char *what, const std::function<bool(Client &)> &f) {
    auto all = [&] { for (auto *c : clients) if (judged(*c) && !f(*c)) return false; return true; };
    static_cast<void>(waitFor(all, BOUND));
    SimQuiet z;
    for (auto *c : clients) if (judged(*c)) CHECK(f(*c), cls, "client %d %s after the attack", c->k, what);
  };
  expect("not-registered", "does not get to know the service and its status", [](Client &c) { return c.registered && !c.values.empty(); });
  int t0;
  { SimQuiet z; t0 = w.lastAlarm; }
  w.cmd = 1;
  static_cast<void>(waitFor([&] { return w.did.load() == 1; }, BOUND));
  CHECK(w.did.load() == 1, "stuck", "the server is stuck publishing");
  expect("missed", "does not get the last status", [&](Client &c) { return !c.values.empty() && c.values.back() == w.lastValue; });
  expect("missed", "does not get each of the last signals", [&](Client &c) {
    int n = 0;
    for (int v : c.alarms) n += v > t0;
    return n == w.lastAlarm - t0;
  });
  w.finalReq = true;
  expect("not-served", "does not get its request served", [](Client &c) { return c.finalOk == 1; });
  { SimQuiet z; if (kind != Wild) for (auto *c : clients) if (!c->hostile) CHECK(c->states == 1 && c->lastState == 1, "unstable", "client %d was told of %d changes of a service that was available all the time", c->k, c->states); }
  w.over = true;
  expect("stuck", "does not end", [](Client &c) { return c.ended; });
  sim_node_kill(srv);
  for (auto *c : clients) sim_node_kill(c->node);
}

SIM_SCENARIO(c20_garbage, SIM_F_NET | SIM_F_SOFTNET, 0, 0) { attack(Garbage); }
SIM_SCENARIO(c20_cut, SIM_F_NET | SIM_F_SOFTNET, 0, 0) { attack(Cut); }
SIM_SCENARIO(c20_wild, SIM_F_NET | SIM_F_SOFTNET, 0, 0) { attack(Wild); }
