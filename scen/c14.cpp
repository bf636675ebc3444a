// C14: every in-app request is answered exactly once, to the one who asked.
#include "cs.h"

#include <mutex>
namespace itc = maf::messaging::itc;
using maf::util::directExecutor;

namespace {
using EchoReq = itc::Request<echo_request::input>;
enum How { ATONCE, ERROR_, DROPPED, DEFERRED, TWICE, RACING, UPDATES, NEVER, POKE, NOBODY, HOWS };
struct Req {
  int id, how = 0, svc = 0;
  bool sync = false, direct = false;
  uint64_t inv = 0, ret = INF, t0 = 0, timeout = 0;
  int handled = 0, finals = 0, updates = 0, updatesSent = 0;
  int good = 0;            // successful answers
  uint64_t goodInv = INF;
  int answer = -1;         // number of the successful answer, -2: error
  int got = -1;            // answer the caller was given, -2: error, -3: empty
  uint64_t abInv = INF, abRet = INF;
  bool abOk = false;
  uint64_t onAb = INF;     // abort callback set up
  int abCb = 0;
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  bool valid = false;
  uint64_t answered1 = INF;   // first answer began
  std::shared_ptr<int> token = std::make_shared<int>(0);
};
struct World {
  vector<std::unique_ptr<Req>> r;
  Serving serving[2];
  std::mutex m;                       // of the parked requests (part of the workload)
  vector<std::pair<Req *, std::shared_ptr<EchoReq>>> parked, kept;
  bool over = false;
};
Req *add(World &w, int how) {
  SimQuiet z;
  w.r.push_back(std::make_unique<Req>());
  auto *x = w.r.back().get();
  x->id = (int)w.r.size() - 1;
  x->how = how;
  return x;
}
void answer(Req *x, EchoReq &q, int n) {
  uint64_t inv;
  { SimQuiet z; inv = sim_ev("answer", x->id, n, 0, 0); if (x->answered1 == INF) x->answered1 = inv; }
  ActionCallStatus st;
  if (n == -2 && x->id % 2) st = q.error(std::make_shared<CSError>("e" + std::to_string(x->id), CSErrorCode::RequestRejected));
  else if (n == -2) st = q.error("e" + std::to_string(x->id), CSErrorCode::RequestRejected);
  else st = q.respond<echo_request::output>(x->id, n, string("r") + std::to_string(x->id));
  bool valid = q.valid();
  SimQuiet z;
  sim_ev("answered", x->id, n, (int)st, 0);
  CHECK(st != ActionCallStatus::Success || !valid, "still-valid", "request %d is valid though it has been answered", x->id);
  if (st == ActionCallStatus::Success) {
    CHECK(++x->good == 1, "two-answers", "two answers to request %d were accepted", x->id);
    x->goodInv = inv;
    x->answer = n;
  }
}
void final(Req *x, int got, const string &text) {
  SimQuiet z;
  sim_ev("final", x->id, got, 0, 0);
  CHECK(++x->finals == 1, "two-outcomes", "request %d got a second answer", x->id);
  if (got >= 0) CHECK(text == "r" + std::to_string(x->id), "torn", "request %d was given the text %s", x->id, text.c_str());
  x->got = got;
}
template <class R>
void outcome(Req *x, const R &rsp) {
  if (auto o = rsp.getOutput()) {
    if constexpr (std::is_same_v<R, itc::Response<echo_request::output>>) {
      CHECK(o->get_id() == x->id, "someone-elses", "request %d was given the answer to request %d", x->id, o->get_id());
      if (o->get_answer() >= 100) { SimQuiet z; sim_ev("update", x->id, o->get_answer(), 0, 0); CHECK(o->get_answer() == 100 + x->updates, "update-order", "update %d comes after %d of request %d", o->get_answer() - 100, x->updates - 1, x->id); x->updates++; CHECK(!x->finals, "update-late", "an update after the answer"); }
      else final(x, o->get_answer(), o->get_text());
    }
  } else if (auto e = rsp.getError()) {
    int g = e->code() == CSErrorCode::RequestRejected ? -2 : e->code() == CSErrorCode::ResponseIgnored ? -4 : e->code() == CSErrorCode::HandlerUnavailable ? -5 : -6;
    if (g == -2) CHECK(e->description() == "e" + std::to_string(x->id), "someone-elses", "request %d was given the error %s", x->id, e->description().c_str());
    final(x, g, "");
  } else final(x, -3, "");
}
struct Client {
  World &w;
  itc::ProxyPtr proxy[2];
  bool direct;
  ProcessorInstance proc;
  void send(bool maySync, int depth) {
    Req *x = add(w, (int)sim_choose(HOWS));
    int sv = x->svc = proxy[1] ? (int)sim_choose(2) : 0;
    auto p = proxy[sv];
    bool dir = direct;
    if (sim_choose(5) == 0) { dir = !dir; p = p->with(dir ? directExecutor() : proc->getExecutor()); }
    x->direct = dir;
    x->sync = maySync && sim_choose(2);
    if (x->sync && sim_choose(3) == 0) x->timeout = 1 + sim_choose(4);
    auto in = echo_request::make_input(x->id, string("q") + std::to_string(x->id));
    { SimQuiet z; x->inv = sim_ev("send", x->id, x->how, x->sync, (int)x->timeout); x->t0 = sim_now(); }
    auto to = RequestTimeoutMs{(long)x->timeout};
    if (x->sync) {
      ActionCallStatus st = ActionCallStatus::FailedUnknown;
      auto note = [&] { SimQuiet z; x->ret = sim_ev("returned", x->id, (int)st, 0, 0); x->st = st; };
      auto done = [&](auto rsp) { note(); if (st == ActionCallStatus::Success) outcome(x, rsp); };
      if (x->how == POKE) done(p->sendRequest<poke_request>(&st, to));
      else if (x->how == NOBODY) done(p->sendRequest<nobody_request>(&st, to));
      else done(p->sendRequest<echo_request::output>(in, &st, to));
      SimQuiet z;
      uint64_t el = sim_now() - x->t0;
      if (x->timeout) CHECK(el <= x->timeout * MS + 2 * MS, "late-timeout", "request %d returned after %g ms with a timeout of %d ms", x->id, el / 1e6, (int)x->timeout);
      if (x->st == ActionCallStatus::Timeout) CHECK(x->timeout && el >= x->timeout * MS, "early-timeout", "request %d reported a timeout after %g ms of %d ms", x->id, el / 1e6, (int)x->timeout);
      return;
    }
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    RegID id;
    // what the callback owns may use the proxy when it is released
    std::shared_ptr<int> own;
    if (sim_choose(3) == 0) own = std::shared_ptr<int>(new int, [q = proxy[sv].get()](int *i) { delete i; RegID r; r.requestID = 1u << 30; r.opID = echo_request::operationID(); q->abortRequest(r); });
    auto cb = [x, this, depth, dir, tok = x->token, own = std::move(own)](const auto &rsp) {
      if (!dir) CHECK(this_processor::instance() == proc, "wrong-thread", "the callback of request %d runs on a foreign thread", x->id);
      outcome(x, rsp);
      if (depth < 2 && sim_choose(4) == 0) send(false, depth + 1);
    };
    if (x->how == POKE) id = p->sendRequestAsync<poke_request>(std::move(cb), &st);
    else if (x->how == NOBODY) id = p->sendRequestAsync<nobody_request>(std::move(cb), &st);
    else id = p->sendRequestAsync<echo_request::output>(in, std::move(cb), &st);
    if (sim_choose(6) == 0) p->sendRequestAsync<poke_request>();   // nobody wants the answer
    { SimQuiet z; x->ret = sim_ev("sent", x->id, (int)st, id.valid(), 0); x->st = st; x->valid = id.valid(); }
    CHECK(id.valid() == (st == ActionCallStatus::Success), "status", "request %d: id %s, status %d", x->id, id.valid() ? "valid" : "invalid", (int)st);
    if (id.valid() && sim_choose(3) == 0) {
      if (sim_choose(2)) sim_sleep(sim_choose(3) * MS);
      ActionCallStatus as = ActionCallStatus::FailedUnknown;
      { SimQuiet z; x->abInv = sim_ev("abort", x->id, 0, 0, 0); }
      p->abortRequest(id, &as);
      SimQuiet z;
      x->abRet = sim_ev("aborted", x->id, (int)as, 0, 0);
      x->abOk = as == ActionCallStatus::Success;
    }
  }
};
}  // namespace

SIM_SCENARIO(c14_requests, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  int svcs = 1 + (int)sim_cfg(2), nc = 1 + (int)sim_cfg(3), nw = 1 + (int)sim_cfg(2);
  bool stops = sim_cfg(2);
  AsyncProcessor server, cprocs[3];
  server.launch();
  itc::StubPtr stub[2];
  for (int s = 0; s < svcs; s++) {
    bool sdir = sim_cfg(3) == 0;
    stub[s] = itc::createStub("svc." + std::to_string(s), sdir ? directExecutor() : server->getAsyncExecutor());
    bool ok = stub[s]->registerRequestHandler<echo_request::input>([&w, s, sdir, sp = server.instance()](EchoReq q) {
      if (!sdir) CHECK(this_processor::instance() == sp, "wrong-thread", "a handler runs on a foreign thread");
      CHECK(q.getOperationID() == echo_request::operationID() && q.getOperationCode() == OpCode::Request && q.getRequestID() != RequestIDInvalid, "request", "a request does not know what it is");
      auto in = q.getInput();
      Req *x;
      {
        SimQuiet z;
        CHECK(in && in->get_id() >= 0 && in->get_id() < (int)w.r.size(), "invented", "a request nobody sent");
        x = w.r[in->get_id()].get();
        sim_ev("handle", x->id, s, 0, 0);
        CHECK(in->get_text() == "q" + std::to_string(x->id), "torn", "request %d arrives as %s", x->id, in->get_text().c_str());
        CHECK(++x->handled == 1, "handled-twice", "request %d is handled twice", x->id);
        CHECK(x->svc == s, "wrong-service", "request %d for service %d reached service %d", x->id, x->svc, s);
      }
      switch (x->how) {
        case ATONCE: answer(x, q, 1); break;
        case ERROR_: answer(x, q, -2); break;
        case DROPPED: { SimQuiet z; x->answered1 = sim_ev("dropped", x->id, 0, 0, 0); } break;
        case TWICE: {
          answer(x, q, 1);
          auto st = q.update<echo_request::output>(x->id, 199, string("u"));
          CHECK(st != ActionCallStatus::Success, "updated-answered", "an update of the answered request %d was accepted", x->id);
          answer(x, q, 2);
        } break;
        case UPDATES:
          for (int i = 0, n = 1 + (int)sim_choose(2); i < n; i++) {
            auto st = q.update<echo_request::output>(x->id, 100 + i, string("u"));
            SimQuiet z;
            if (st == ActionCallStatus::Success) x->updatesSent++;
          }
          answer(x, q, 1);
          break;
        default: {
          auto p = std::make_shared<EchoReq>(std::move(q));
          if (sim_choose(2)) {
            bool queued = sim_choose(3) == 0;
            auto ac = [x, queued, sp, p2 = std::weak_ptr<EchoReq>(p)] {
              bool v = false;
              if (auto l = p2.lock()) v = l->valid();
              CHECK(!v, "still-valid", "request %d is valid while its handler is told that it is aborted", x->id);
              if (queued) CHECK(this_processor::instance() == sp, "wrong-thread", "the abort callback of request %d runs on a foreign thread", x->id);
              SimQuiet z;
              sim_ev("abort-callback", x->id, 0, 0, 0);
              CHECK(++x->abCb == 1, "aborted-twice", "request %d is aborted twice", x->id);
            };
            if (queued) p->onAborted(ac, sp->getExecutor());
            else p->onAborted(ac);
            SimQuiet z;
            x->onAb = sim_ev("on-aborted", x->id, 0, 0, 0);
          }
          std::lock_guard l(w.m);
          if (x->how == NEVER) w.kept.emplace_back(x, std::move(p));
          else w.parked.emplace_back(x, std::move(p));
        }
      }
    });
    CHECK(ok, "handler", "a handler could not be registered");
    CHECK(!stub[s]->registerRequestHandler<echo_request::input>([](EchoReq) { sim_fail("handler", "the refused handler is called"); }), "handler", "a second handler for one request was accepted");
    stub[s]->registerRequestHandler<poke_request>([](itc::Request<poke_request> q) { q.respond(); });
    w.serving[s].set(stub[s], true, s);
  }
  vector<std::thread> workers, clients, racers;
  std::atomic<bool> over{false};
  for (int i = 0; i < nw; i++)
    workers.emplace_back([&] {
      for (;;) {
        std::pair<Req *, std::shared_ptr<EchoReq>> j;
        bool end = over.load();
        {
          std::lock_guard l(w.m);
          if (!w.parked.empty()) { j = std::move(w.parked.back()); w.parked.pop_back(); }
        }
        if (j.first) {
          if (sim_choose(2)) sim_sleep(sim_choose(3) * MS);
          bool ab;
          { SimQuiet z; ab = j.first->abOk; }
          if (ab) CHECK(!j.second->valid(), "still-valid", "request %d is valid though it has been aborted", j.first->id);
          if (j.first->how == RACING) {
            std::thread a([&] { answer(j.first, *j.second, 1); });
            answer(j.first, *j.second, 2);
            a.join();
          } else answer(j.first, *j.second, 1);
        } else if (end) break;
        else sim_sleep(MS / 2);
      }
    });
  for (int c = 0; c < nc; c++) cprocs[c].launch();
  std::atomic<int> done{0};
  vector<std::unique_ptr<Client>> cls;
  for (int c = 0; c < nc; c++) cls.emplace_back(new Client{w, {}, sim_choose(2) == 0, cprocs[c].instance()});
  for (int c = 0; c < nc; c++)
    clients.emplace_back([&, c, n = 1 + (int)sim_choose(4)] {
      auto *cl = cls[c].get();
      auto ex = cl->direct ? directExecutor() : cprocs[c]->getAsyncExecutor();
      for (int s = 0; s < svcs; s++) cl->proxy[s] = itc::createProxy("svc." + std::to_string(s), ex);
      for (int i = 0; i < n; i++) { if (sim_choose(3) == 0) sim_sleep(sim_choose(3) * MS); cl->send(true, 0); }
      done++;
      // callbacks of this client may still come
      static_cast<void>(waitFor([&] { return over.load(); }, 0));
      over.load();
      cprocs[c]->waitableExecute([] {}).wait();
    });
  std::thread ctl([&] {
    if (stops)
      for (int i = 0, n = (int)sim_choose(3); i < n; i++) {
        int s = (int)sim_choose(svcs);
        sim_sleep(sim_choose(4) * MS);
        w.serving[s].set(stub[s], false, s);
        if (sim_choose(2)) sim_sleep(sim_choose(2) * MS);
        w.serving[s].set(stub[s], true, s);
      }
  });
  ctl.join();
  // everybody who can be answered gets time for it
  bool abrupt = sim_choose(3) == 0;
  uint64_t awaited = 0;
  if (abrupt) sim_sleep(sim_choose(6) * MS);
  else waitFor([&] {
    if (done != nc) return false;
    for (auto &x : w.r)
      if (!x->sync && (x->ret == INF || (x->valid && x->how != NEVER && x->abInv == INF && !x->finals))) return false;
    return true;
  }, 100 * MS);
  if (!abrupt) { SimQuiet z; awaited = sim_ev("awaited", 0, 0, 0, 0); }
  for (int s = 0; s < svcs; s++) w.serving[s].set(stub[s], false, s);
  // whoever still waits for an answer that never comes has been released
  waitFor([&] { return done == nc; }, 0);
  done.load();
  over = true;
  joinAll(workers);
  server->waitableExecute([] {}).wait();
  joinAll(clients);
  server->waitableExecute([] {}).wait();
  for (auto &k : w.kept) CHECK(!k.first->abOk || !k.second->valid(), "still-valid", "request %d is valid though it has been aborted", k.first->id);
  { std::lock_guard l(w.m); w.kept.clear(); }
  server.stopAndWait();
  for (int c = 0; c < nc; c++) cprocs[c].stopAndWait();
  SimQuiet z;
  for (auto &xp : w.r) {
    auto &x = *xp;
    auto &sv = w.serving[x.svc];
    bool down = sv.maybe(false, x.inv, x.ret);
    bool stopped = down;                    // released by a stop
    for (auto &c : sv.c) if (!c.up && c.ret > x.inv && c.inv <= (x.sync ? x.ret : INF)) stopped = true;
    bool midStop = false;                   // stopped while it was pending
    for (size_t i = 0; i + 1 < sv.c.size(); i++) if (!sv.c[i].up && sv.c[i].ret > x.inv) midStop = true;
    bool accepted = x.sync ? x.st != ActionCallStatus::ServiceUnavailable : x.valid;
    if (x.st == ActionCallStatus::ServiceUnavailable) {
      CHECK(down, "refused", "request %d was refused though the service was available", x.id);
      CHECK(!x.finals, "refused-answered", "request %d was refused and answered", x.id);
    } else if (x.sync) {
      CHECK(x.st == ActionCallStatus::Success || (x.st == ActionCallStatus::ActionBroken && stopped) || (x.st == ActionCallStatus::Timeout && x.timeout), "bad-status", "request %d returned status %d", x.id, (int)x.st);
      CHECK((x.st == ActionCallStatus::Success) == (x.finals == 1), "no-outcome", "request %d returned status %d with %d answers", x.id, (int)x.st, x.finals);
    } else CHECK(x.st == ActionCallStatus::Success, "bad-status", "request %d was sent with status %d", x.id, (int)x.st);
    if (accepted) CHECK(sv.maybe(true, x.inv, x.ret), "accepted-down", "request %d was accepted though the service was unavailable", x.id);
    if (accepted && x.how != POKE && x.how != NOBODY) {
      CHECK(x.handled == 1 || down, "not-handled", "request %d was handled %d times", x.id, x.handled);
      if (x.finals) {
        int want = x.how == DROPPED || x.how == NEVER ? -4 : x.answer;
        CHECK(x.got == want, "wrong-answer", "request %d (how %d) was given %d instead of %d", x.id, x.how, x.got, want);
      }
    }
    if (x.finals && x.how == POKE) CHECK(x.got == -3, "wrong-answer", "a void request was given %d", x.got);
    if (x.finals && x.how == NOBODY) CHECK(x.got == -5, "wrong-answer", "a request without handler was given %d", x.got);
    if (accepted && !midStop && x.how != NEVER && x.abInv == INF && !x.timeout && x.inv < awaited && !down)
      CHECK(x.finals == 1, "no-outcome", "request %d (how %d) got no answer", x.id, x.how);
    if (x.sync && !x.timeout && accepted && x.how == NEVER) CHECK(x.ret > x.inv && stopped, "no-outcome", "request %d returned before it was answered", x.id);
    if (x.abOk && x.good) CHECK(x.goodInv < x.abRet, "accepted-aborted", "an answer to request %d was accepted after it had been aborted", x.id);
    if (x.sync && x.st == ActionCallStatus::Timeout && x.good && !stopped) CHECK(x.goodInv < x.ret, "accepted-aborted", "an answer to request %d was accepted after its timeout", x.id);
    if (x.abOk) CHECK(!x.finals, "answered-aborted", "request %d was aborted and answered", x.id);
    if (x.abOk && x.onAb != INF && x.answered1 > x.abRet) CHECK(x.abCb == 1, "abort-untold", "the handler of request %d was told %d times that it is aborted", x.id, x.abCb);
    if (x.abCb) CHECK(x.abInv != INF || x.timeout || x.good, "not-aborted", "the handler of request %d was told of an abort nobody asked for", x.id);
    if (x.updates > x.updatesSent) sim_fail("invented", "request %d was given %d updates of %d", x.id, x.updates, x.updatesSent);
    CHECK(x.token.use_count() == 1, "not-released", "the callback of request %d is kept for ever (%ld)", x.id, x.token.use_count() - 1);
  }
}

// Handlers come and go while requests are sent; what they own may use the stub while it is destroyed
namespace {
struct Tenure { uint64_t onInv = INF, onRet = INF, offInv = INF, offRet = INF; };
struct Desk {
  itc::StubPtr stub;
  vector<std::unique_ptr<Tenure>> t;
  std::atomic<int> alive{0};
  std::atomic<bool> over{false};
};
GhostPtr haunt(Desk &d) {
  int what = (int)sim_choose(4);
  d.alive++;
  return std::make_shared<Ghost>([&d, what] {
    d.alive--;
    if (d.over) return;
    switch (what) {
      case 0: d.stub->registerRequestHandler<poke_request>([](itc::Request<poke_request> q) { q.respond(); }); break;
      case 1: d.stub->unregisterRequestHandler<poke_request>(); break;
      case 2: d.stub->stopServing(); d.stub->startServing(); break;
      case 3: break;
    }
  });
}
}  // namespace
SIM_SCENARIO(c14_handlers, 0, 0, 0) {
  auto dp = std::make_unique<Desk>();
  Desk &d = *dp;
  AsyncProcessor server;
  server.launch();
  bool ghosts = sim_cfg(2);
  d.stub = itc::createStub("desk", sim_cfg(2) ? server->getAsyncExecutor() : directExecutor());
  d.stub->startServing();
  std::atomic<bool> over{false};
  std::thread ctl([&] {
    for (int i = 0, n = 1 + (int)sim_choose(4); i < n; i++) {
      Tenure *x;
      int gen;
      {
        SimQuiet z;
        gen = (int)d.t.size();
        d.t.push_back(std::make_unique<Tenure>());
        x = d.t.back().get();
        x->onInv = sim_ev("on", gen, 0, 0, 0);
      }
      bool r = d.stub->registerRequestHandler<echo_request::input>([gen, g = ghosts ? haunt(d) : GhostPtr{}](EchoReq rq) {
        auto p = std::make_shared<EchoReq>(std::move(rq));
        auto &q = *p;
        auto in = q.getInput();
        if (g && sim_choose(3) == 0) {
          q.onAborted([h = std::make_shared<Ghost>([w = std::weak_ptr<EchoReq>(p)] { if (auto l = w.lock()) l->valid(); })] {});
          q.onAborted([] {});
        }
        q.respond<echo_request::output>(in ? in->get_id() : -1, gen, string("r"));
      });
      { SimQuiet z; x->onRet = sim_ev("on-ret", gen, r, 0, 0); }
      CHECK(r, "handler", "a handler could not be registered though there is none");
      if (sim_choose(3) == 0) CHECK(!d.stub->registerRequestHandler<echo_request::input>([](EchoReq) { sim_fail("handler", "the refused handler is called"); }), "handler", "a second handler was accepted");
      for (uint64_t y = sim_choose(60); y > 0; y--) sim_yield();
      if (i + 1 == n && sim_choose(2)) break;
      { SimQuiet z; x->offInv = sim_ev("off", gen, 0, 0, 0); }
      r = d.stub->unregisterRequestHandler<echo_request>();
      { SimQuiet z; x->offRet = sim_ev("off-ret", gen, r, 0, 0); }
      CHECK(r, "handler", "a handler could not be unregistered");
      CHECK(!d.stub->unregisterRequestHandler<echo_request>(), "handler", "a handler was unregistered twice");
      if (sim_choose(2)) for (uint64_t y = sim_choose(40); y > 0; y--) sim_yield();
    }
    over = true;
  });
  vector<std::thread> ths;
  std::atomic<int> nextId{0}, ended{0};
  int nc = 1 + (int)sim_choose(2);
  for (int c = 0; c < nc; c++)
    ths.emplace_back([&] {
      auto p = itc::createProxy("desk", directExecutor());
      for (int i = 0, n = 2 + (int)sim_choose(5); i < n; i++) {
        int id = nextId++;
        if (sim_choose(4) == 0) { p->sendRequest<poke_request>(); continue; }
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        uint64_t inv, ret;
        { SimQuiet z; inv = sim_ev("send", id, 0, 0, 0); }
        auto rsp = p->sendRequest<echo_request::output>(echo_request::make_input(id, string("q")), &st);
        SimQuiet z;
        ret = sim_ev("returned", id, (int)st, 0, 0);
        if (st != ActionCallStatus::Success) {
          CHECK(ghosts, "bad-status", "request %d returned status %d", id, (int)st);
          continue;
        }
        if (auto o = rsp.getOutput()) {
          CHECK(o->get_id() == id, "someone-elses", "request %d was given the answer to request %d", id, o->get_id());
          int g = o->get_answer();
          CHECK(g >= 0 && g < (int)d.t.size() && d.t[g]->onInv < ret && d.t[g]->offRet > inv, "wrong-handler", "request %d was answered by handler %d, which was not registered then", id, g);
        } else {
          auto e = rsp.getError();
          CHECK(e && (e->code() == CSErrorCode::HandlerUnavailable || ghosts), "wrong-answer", "request %d was answered with error %d", id, e ? (int)e->code() : -1);
          for (auto &x : d.t) CHECK(e->code() != CSErrorCode::HandlerUnavailable || !(x->onRet < inv && x->offInv > ret), "wrong-answer", "request %d found no handler though one was registered all the time", id);
        }
      }
      ended++;
    });
  CHECK(waitFor([&] { return over.load() && ended.load() == nc; }, 60000 * MS), "stuck", "registering handlers or sending requests does not end");
  ctl.join();
  joinAll(ths);
  d.over = true;
  d.stub->stopServing();
  d.stub->unregisterRequestHandler<echo_request>();
  server.stopAndWait();
}

// many requests at a time
SIM_SCENARIO(c14_many, 0, 0, 0) {
  auto stub = itc::createStub("many", directExecutor());
  int n = 1 + (int)sim_choose(40), nt = 1 + (int)sim_choose(2);
  vector<EchoReq> kept;
  std::mutex m;
  stub->registerRequestHandler<echo_request::input>([&](EchoReq q) { std::lock_guard l(m); kept.push_back(std::move(q)); });
  stub->startServing();
  auto proxy = itc::createProxy("many", directExecutor());
  auto got = std::make_unique<vector<int>>(80);
  int *g = got->data();
  vector<RegID> ids(2 * n);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t] {
      for (int i = t * n; i < (t + 1) * n; i++)
        ids[i] = proxy->sendRequestAsync<echo_request::output>(std::make_shared<echo_request::input>(i, "x"), [g, i](const auto &r) {
          SimQuiet z;
          CHECK(++g[i] == 1, "answered-twice", "request %d is answered twice", i);
          if (r.isError()) { g[i] += 100; return; }
          CHECK(r.getOutput()->get_id() == i, "someone-elses", "request %d is given the answer to %d", i, r.getOutput()->get_id());
        });
    });
  joinAll(ths);
  CHECK((int)kept.size() == nt * n, "not-handled", "%zu of %d requests are handled", kept.size(), nt * n);
  for (size_t i = kept.size(); i > 1; i--) std::swap(kept[i - 1], kept[sim_choose(i)]);
  vector<char> aborted(nt * n);
  for (auto &q : kept) {
    int i = q.getInput()->get_id();
    if (sim_choose(5) == 0) { aborted[i] = 1; proxy->abortRequest(ids[i]); CHECK(!q.valid(), "still-valid", "request %d is valid after it was aborted", i); continue; }
    CHECK(q.valid(), "not-valid", "request %d is not valid though nobody aborted or answered it", i);
    q.respond<echo_request::output>(i, i, "y");
  }
  for (int i = 0; i < nt * n; i++)
    CHECK(aborted[i] ? g[i] != 1 : g[i] == 1, "not-answered", "request %d of %d: aborted %d, answered %d", i, nt * n, aborted[i], g[i]);
  stub->stopServing();
}
