// Executes operation sequences (one JSON object per line on stdin) on the real persisters and reports what the
// public API returned.  {"kind":"mem"|"file","ops":[{op..}]}  ->  {"kind":..,"ev":[{"op":{..},"res":{..}}]}
#define CURRENT_MOCK_TIME
#include "typesystem/struct.h"
#include "typesystem/serialization/json.h"
#include "blocks/persistence/memory.h"
#include "blocks/persistence/file.h"
#include "bricks/file/file.h"
#include "mj.h"
#include <fstream>
#include <iostream>
#include <unistd.h>
namespace h {
CURRENT_STRUCT(Entry) {
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(Entry)(const std::string& s = "") : s(s) {}
};
}
using h::Entry;
using mj::V;
using current::locks::MutexLockStatus;
using us_t = std::chrono::microseconds;
using MEM = current::persistence::Memory<Entry>;
using FILEP = current::persistence::File<Entry>;
static const current::ss::StreamNamespaceName kName("ns", "entry");

static V Rec(const idxts_t& i, const std::string& s) { return V::obj().set("i", i.index).set("us", (long long)i.us.count()).set("e", s); }

template <class IMPL> struct Runner {
  std::mutex mutex;
  std::string file;
  std::unique_ptr<IMPL> p;
  struct Slot { std::unique_ptr<typename IMPL::IterableRange> r; std::unique_ptr<decltype(std::declval<typename IMPL::IterableRange>().begin())> it, end; };
  Slot slots[2];
  static std::unique_ptr<IMPL> Make(std::mutex& m, const std::string& f);
  static us_t U(const V& v) { return us_t(v.i); }
  template <class F> auto Locked(bool lk, F f) { if (lk) { std::lock_guard<std::mutex> g(mutex); return f(); } return f(); }
  template <class R> static V Collect(R&& r) {
    V es = V::arr();
    for (const auto& e : r) es.push(Rec(e.idx_ts, e.entry.s));
    return V::obj().set("r", "ok").set("es", es);
  }
  template <class R> static V CollectRaw(R&& r) {
    V es = V::arr();
    for (const std::string& line : r) {
      auto tab = line.find('\t');
      auto it = ParseJSON<idxts_t>(line.substr(0, tab));
      auto en = ParseJSON<Entry>(line.substr(tab + 1));
      if (JSON(it) + '\t' + JSON(en) != line) throw std::runtime_error("raw line differs: " + line);
      es.push(Rec(it, en.s));
    }
    return V::obj().set("r", "ok").set("es", es);
  }
  static V DumpOf(IMPL& q) {
    V r = Collect(q.Iterate());
    V raw = CollectRaw(q.IterateUnsafe());
    if (raw.str() != r.str()) throw std::runtime_error("raw iteration differs");
    r.set("head", (long long)q.CurrentHead().count());
    return r;
  }
  V Guard(std::function<V()> f) {
    V e = V::obj();
    try { return f(); }
    catch (const current::ss::InconsistentTimestampException&) { return e.set("r", "InconsistentTimestamp"); }
    catch (const current::ss::InconsistentIndexException&) { return e.set("r", "InconsistentIndex"); }
    catch (const current::persistence::UnsafePublishBadIndexTimestampException&) { return e.set("r", "BadIndex"); }
    catch (const current::persistence::MalformedEntryException&) { return e.set("r", "Malformed"); }
    catch (const current::persistence::InvalidIterableRangeException&) { return e.set("r", "InvalidRange"); }
    catch (const current::persistence::NoEntriesPublishedYet&) { return e.set("r", "NoEntries"); }
    catch (const current::persistence::InvalidStreamSignature&) { return e.set("r", "BadSignature"); }
    catch (const current::persistence::InvalidSignatureLocation&) { return e.set("r", "SignatureLocation"); }
    catch (const current::Exception& x) { return e.set("r", std::string("exception")); }
    catch (const std::exception& x) { return e.set("r", std::string("std::exception")); }
  }
  void CloseIters() { for (auto& s : slots) { s.it = nullptr; s.end = nullptr; s.r = nullptr; } }
  V Do(const V& o) { return Guard([&] { return DoIt(o); }); }
  V DoIt(const V& o) {
    const std::string op = o["op"].s;
    const bool lk = o["lk"].i == 1;
    V ok = V::obj().set("r", "ok");
    if (op == "pub") {
      const Entry e(o["e"].s);
      idxts_t r;
      if (o["now"].i == 1) {
        current::time::ResetToZero();
        current::time::SetNow(U(o["us"]));
        r = lk ? Locked(true, [&] { return p->template Publish<MutexLockStatus::AlreadyLocked>(e); }) : p->Publish(e);
      } else {
        r = lk ? Locked(true, [&] { return p->template Publish<MutexLockStatus::AlreadyLocked>(e, U(o["us"])); }) : p->Publish(e, U(o["us"]));
      }
      return ok.set("i", r.index).set("us", (long long)r.us.count());
    }
    if (op == "raw") {
      const std::string line = JSON(idxts_t(o["i"].i, U(o["us"]))) + '\t' + JSON(Entry(o["e"].s));
      auto r = lk ? Locked(true, [&] { return p->template PersisterPublishUnsafeImpl<MutexLockStatus::AlreadyLocked>(line); }) : p->template PersisterPublishUnsafeImpl<MutexLockStatus::NeedToLock>(line);
      return ok.set("i", r.index).set("us", (long long)r.us.count());
    }
    if (op == "rawbad") { p->template PersisterPublishUnsafeImpl<MutexLockStatus::NeedToLock>("no tab here"); return ok; }
    if (op == "head") {
      if (o["now"].i == 1) { current::time::ResetToZero(); current::time::SetNow(U(o["us"])); p->UpdateHead(); }
      else if (lk) { std::lock_guard<std::mutex> g(mutex); p->template UpdateHead<MutexLockStatus::AlreadyLocked>(U(o["us"])); }
      else p->UpdateHead(U(o["us"]));
      return ok;
    }
    if (op == "last") { auto r = p->LastPublishedIndexAndTimestamp(); return ok.set("i", r.index).set("us", (long long)r.us.count()); }
    if (op == "info") {
      auto hl = p->HeadAndLastPublishedIndexAndTimestamp();
      V l = V::obj();
      if (Exists(hl.idxts)) l.set("i", Value(hl.idxts).index).set("us", (long long)Value(hl.idxts).us.count()); else l.set("i", -1).set("us", -1);
      return ok.set("size", p->Size()).set("empty", p->Empty()).set("head", (long long)p->CurrentHead().count()).set("hhead", (long long)hl.head.count()).set("hlast", l);
    }
    if (op == "range") {
      auto r = p->IndexRangeByTimestampRange(U(o["from"]), U(o["till"]));
      return ok.set("b", (long long)r.first).set("e", (long long)r.second);
    }
    if (op == "iter") { if (lk) { std::lock_guard<std::mutex> g(mutex); return Collect(p->template Iterate<MutexLockStatus::AlreadyLocked>((uint64_t)o["b"].i, (uint64_t)o["e"].i)); } return Collect(p->Iterate((uint64_t)o["b"].i, (uint64_t)o["e"].i)); }
    if (op == "iteru") return CollectRaw(p->IterateUnsafe((uint64_t)o["b"].i, (uint64_t)o["e"].i));
    if (op == "itert") return Collect(p->Iterate(U(o["from"]), U(o["till"])));
    if (op == "itertu") return CollectRaw(p->IterateUnsafe(U(o["from"]), U(o["till"])));
    if (op == "open") {
      auto r = p->Iterate((uint64_t)o["b"].i, (uint64_t)o["e"].i);
      Slot& s = slots[o["k"].i];
      s.it = nullptr; s.end = nullptr; s.r = nullptr;
      s.r = std::make_unique<typename IMPL::IterableRange>(std::move(r));
      s.it.reset(new auto(s.r->begin())); s.end.reset(new auto(s.r->end()));
      return ok;
    }
    if (op == "next") {
      Slot& s = slots[o["k"].i];
      if (!s.it || *s.it == *s.end) return V::obj().set("r", "end");
      V es = V::arr();
      { const auto& e = *(*s.it); es.push(Rec(e.idx_ts, e.entry.s)); }
      ++*s.it;
      return ok.set("es", es);
    }
    if (op == "reopen") { CloseIters(); if (!file.empty()) { p = nullptr; p = Make(mutex, file); } return DumpOf(*p); }
    if (op == "copy") {
      if (file.empty()) return DumpOf(*p);
      const std::string f2 = file + ".copy";
      current::FileSystem::WriteStringToFile(current::FileSystem::ReadFileAsString(file), f2.c_str());
      std::mutex m2; auto q = Make(m2, f2);
      V r = DumpOf(*q);
      q = nullptr; ::unlink(f2.c_str());
      return r;
    }
    if (op == "crash") return Crash(o["inner"]);
    if (op == "create") return CrashCreate();
    if (op == "load") return Load(o["lines"]);
    return V::obj().set("r", "unknown op");
  }
  // Opens `content` as a storage left behind by a crash; reports the outcome and, if it opened, that it remains usable.
  V Recover(const std::string& content, const std::string& f2) {
    current::FileSystem::WriteStringToFile(content, f2.c_str());
    V out = V::obj();
    try {
      std::mutex m2;
      auto q = Make(m2, f2);
      V d;
      d = Guard([&] { return DumpOf(*q); });
      if (d["r"].s != "ok") { out.set("r", "unreadable"); }
      else {
        out = d;
        const long long t = q->CurrentHead().count() + 7;
        V after = Guard([&] {
          q->UpdateHead(us_t(t - 4));
          V live0 = DumpOf(*q);
          q = nullptr;
          q = Make(m2, f2);
          if (live0.str() != DumpOf(*q).str()) return V::obj().set("r", "reopened differs after a head update");
          auto r = q->Publish(Entry("after-crash"), us_t(t));
          q->UpdateHead(us_t(t + 3));
          q->UpdateHead(us_t(t + 4));
          V live = DumpOf(*q);
          q = nullptr;
          q = Make(m2, f2);
          V again = DumpOf(*q);
          if (live.str() != again.str()) return V::obj().set("r", "reopened differs");
          return again.set("i", r.index);
        });
        out.set("after", after);
      }
      q = nullptr;
    } catch (const current::Exception&) {
      out.set("r", "refused");
      // The class of the refusal, for files which are refused for a reason other than a torn line.
      V why = Guard([&] { std::mutex m2; auto q = Make(m2, f2); return V::obj().set("r", "ok"); });
      out.set("why", why["r"]);
    }
    ::unlink(f2.c_str());
    return out;
  }
  V Outcomes(const std::string& before, const std::string& after) {
    V outs = V::arr(); std::set<std::string> seen;
    const std::string f2 = file + ".crash";
    auto add = [&](const std::string& content, const char* at) {
      V r = Recover(content, f2);
      r.set("at", at);
      if (seen.insert(r.str()).second) outs.push(r);
    };
    add(before, "before");
    add(after, "after");
    if (after.size() > before.size() && after.compare(0, before.size(), before) == 0) {
      for (size_t n = before.size() + 1; n < after.size(); ++n) add(after.substr(0, n), "torn");
    } else if (after.size() == before.size()) {
      size_t a = 0; while (a < after.size() && after[a] == before[a]) ++a;
      size_t b = after.size(); while (b > a && after[b - 1] == before[b - 1]) --b;
      for (size_t n = a + 1; n < b; ++n) add(after.substr(0, n) + before.substr(n), "rewrite");
    } else {
      return V::obj().set("r", "file neither appended nor rewritten in place");
    }
    return V::obj().set("r", "ok").set("outs", outs);
  }
  V Crash(const V& inner) {
    if (file.empty()) return V::obj().set("r", "n/a");
    const std::string before = current::FileSystem::ReadFileAsString(file);
    V r = Do(inner);
    const std::string after = current::FileSystem::ReadFileAsString(file);
    V res = Outcomes(before, after);
    res.set("inner", r);
    return res;
  }
  V Load(const V& lines) {
    const std::string f4 = file + ".load";
    std::string sig, content;
    { std::mutex m; { auto q = Make(m, f4); } sig = current::FileSystem::ReadFileAsString(f4); ::unlink(f4.c_str()); }
    for (auto& x : lines.a) {
      const std::string& k = x["k"].s;
      if (k == "entry") content += JSON(idxts_t(x["i"].i, U(x["us"]))) + '\t' + JSON(Entry(x["e"].s)) + '\n';
      else if (k == "head") { char b[64]; snprintf(b, sizeof b, "#head %020lld\n", x["us"].i); content += b; }
      else if (k == "sig") content += sig;
      else if (k == "badsig") { std::string t = sig; auto p = t.find("entry"); if (p != std::string::npos) t[p] = 'X'; content += t; }
      else if (k == "dir") content += "#some_directive foo\n";
      else content += "junk\n";
    }
    V out = Recover(content, f4);
    if (out["r"].s == "refused") return V::obj().set("r", out["why"]);
    return out;
  }
  V CrashCreate() {
    const std::string f3 = file + ".fresh";
    std::mutex m; { auto q = Make(m, f3); }
    const std::string after = current::FileSystem::ReadFileAsString(f3);
    ::unlink(f3.c_str());
    return Outcomes("", after);
  }
};
template <> std::unique_ptr<MEM> Runner<MEM>::Make(std::mutex& m, const std::string&) { return std::make_unique<MEM>(m, kName); }
template <> std::unique_ptr<FILEP> Runner<FILEP>::Make(std::mutex& m, const std::string& f) { return std::make_unique<FILEP>(m, kName, f); }

template <class IMPL> static V RunSeq(const V& in, const std::string& file) {
  if (!file.empty()) ::unlink(file.c_str());
  Runner<IMPL> r;
  r.file = file;
  r.p = Runner<IMPL>::Make(r.mutex, file);
  V ev = V::arr();
  for (auto& o : in["ops"].a) ev.push(V::obj().set("op", o).set("res", r.Do(o)));
  r.CloseIters();
  r.p = nullptr;
  if (!file.empty()) ::unlink(file.c_str());
  return V::obj().set("kind", in["kind"]).set("ev", ev);
}
int main(int argc, char** argv) {
  const std::string dir = argv[1];
  std::string line;
  while (std::getline(std::cin, line)) {
    V in = mj::parse(line);
    V out = in["kind"].s == "mem" ? RunSeq<MEM>(in, "") : RunSeq<FILEP>(in, dir + "/p." + std::to_string(getpid()) + ".log");
    std::cout << out.str() << std::endl;
  }
}
