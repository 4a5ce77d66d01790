// stdin: {"m":"str"|"cstr"|"ex"|"exc"|"http","f":n,"p":[[bytes]..],"z":0|1}; stdout: {"ev":[..]}
// f: the consumer throws at its f-th line; z: feed C strings (no zero bytes in the pieces)
#include <iostream>
#include "mj.h"
#include "bricks/strings/group_by_lines.h"
#include "blocks/http/api.h"
using mj::V;
struct Oops {};
static V Bytes(const std::string& s) { V v = V::arr(); for (unsigned char c : s) v.push((int)c); return v; }
static std::string Str(const V& v) { std::string s; for (auto& x : v.a) s += (char)x.i; return s; }
static V ev, out; static long long n, f;
template <class G> static void Feed(G& g, const V& p, bool z) {
  out = V::arr(); bool thrown = false; const std::string s = Str(p);
  try { if (z) g.Feed(s.c_str()); else g.Feed(s); } catch (const Oops&) { thrown = true; }
  ev.push(V::obj().set("k", "feed").set("s", p).set("out", out).set("thrown", thrown));
}
static void Got(const V& line) { out.push(line); if (++n == f) throw Oops(); }
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    const V p = mj::parse(l);
    ev = V::arr(); n = 0; f = p["f"].i;
    const std::string m = p["m"].s; const bool z = p["z"].i;
    if (m == "str" || m == "cstr") {
      auto go = [&](auto g) {
        for (auto& x : p["p"].a) Feed(*g, x, z);
        out = V::arr(); f = 0; delete g; ev.push(V::obj().set("k", "end").set("out", out));
      };
      if (m == "str") go(new current::strings::StatefulGroupByLines([](std::string&& s) { Got(Bytes(s)); }));
      else go(new current::strings::StatefulGroupByLinesCStringProcessing([](const char* s) { Got(Bytes(s)); }));
    } else if (m == "ex" || m == "exc") {
      auto go = [&](auto g) {
        for (auto& x : p["p"].a) Feed(g, x, z);
        out = V::arr(); try { f = 0; g.Done(); } catch (...) { out.push("Done() threw"); }
        ev.push(V::obj().set("k", "end").set("out", out));
        out = V::arr(); bool refused = false;
        try { g.Feed("x\n"); } catch (const current::strings::GroupByLinesFeedCaledAfterDone&) { refused = out.a.empty(); }
        ev.push(V::obj().set("k", "late").set("refused", refused));
        refused = false;
        try { g.Done(); } catch (const current::strings::GroupByLinesDoneCalledTwice&) { refused = out.a.empty(); }
        ev.push(V::obj().set("k", "late").set("refused", refused));
      };
      if (m == "ex") go(current::strings::CreateExceptionFriendlyStatefulGroupByLines([](std::string&& s) { Got(Bytes(s)); }));
      else go(current::strings::CreateExceptionFriendlyStatefulGroupByLines([](const char* s) { Got(Bytes(s)); }));
    } else {  // the lines of a chunked HTTP response, given to two consumers; z: which of OnLine and OnDone is called first
      V second = V::arr(); int done = 0;
      {
        ChunkedGET g("url");
        auto d = [&] { ++done; };
        if (z) g.OnLine([&](const std::string& s) { out.push(Bytes(s)); }).OnLine([&](const std::string& s) { second.push(Bytes(s)); }).OnDone(d);
        else g.OnDone(d).OnLine([&](const std::string& s) { out.push(Bytes(s)); }).OnLine([&](const std::string& s) { second.push(Bytes(s)); });
        for (auto& x : p["p"].a) {
          out = V::arr(); second = V::arr();
          g.chunk_callback(Str(x));
          if (out.str() != second.str()) out.push("the second consumer got something else");
          ev.push(V::obj().set("k", "feed").set("s", x).set("out", out).set("thrown", false));
        }
        out = V::arr(); second = V::arr();
        g.done_callback();
      }
      if (out.str() != second.str()) out.push("the second consumer got something else");
      if (done != 1) out.push("the done callback was not called once");
      ev.push(V::obj().set("k", "end").set("out", out));
    }
    std::cout << V::obj().set("ev", ev).str() << "\n";
  }
}
