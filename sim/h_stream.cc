#include "stream.h"

namespace sim {

std::string sbp_diff(const Bytes &a, const Bytes &b) {
  std::vector<Sbp> x, y;
  parse_sbp(a, x); parse_sbp(b, y);
  for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
    if (i >= x.size()) return fmt("message %zu missing: %s", i, show(y[i]).c_str());
    if (i >= y.size()) return fmt("message %zu extra: %s", i, show(x[i]).c_str());
    if (x[i] != y[i]) return fmt("message %zu is %s, expected %s", i, show(x[i]).c_str(), show(y[i]).c_str());
  }
  return "outputs differ outside whole messages";
}

bool check_delivery(Ctx &c, const char *prop, const Bytes &s, const std::vector<Span> &spans, bool dirty, const Delivery &d, const Entry &e, Bytes *out,
                    std::function<std::string(const Bytes &, const Bytes &)> diff) {
  ToolRun a = run_tool(c, d.io(s, RM_FULL), e);
  tool_crashes(c, a, "full reads");
  c.log(a.out);
  if (out) *out = a.out;
  if (a.bad()) return false;
  IOPlan q = d.io(s, d.mode == RM_FULL ? RM_ONE : d.mode);
  ToolRun b = run_tool(c, q, e);
  c.fault(q.mode == RM_ONE ? "one byte per read" : "short reads", b.reads.size());
  tool_crashes(c, b, "short reads");
  c.evals(1);
  if (b.bad()) return false;
  if (a.out != b.out) { c.violate(prop, "output depends on how reads split the stream", diff(b.out, a.out)); return false; }
  if (!dirty) {
    // with frames only, what a frame produces is out once it has been read
    IOPlan al = d.io(s, RM_LIST);
    for (auto &f : spans) { al.cuts.push_back(f.end); al.cuts.push_back(f.at); }
    ToolRun g = run_tool(c, al, e);
    tool_crashes(c, g, "one frame per read");
    c.evals(1);
    if (g.bad()) return false;
    if (g.out != a.out) { c.violate(prop, "output depends on how reads split the stream", "frame by frame: " + diff(g.out, a.out)); return false; }
    std::map<size_t, size_t> cum;
    for (auto &r : g.reads) if (r.delivered < s.size() || !cum.count(r.delivered)) cum[r.delivered] = r.out;
    for (auto &r : b.reads) {
      auto it = cum.upper_bound(r.delivered);
      if (it == cum.begin()) continue;
      --it;
      c.evals(1);
      if (r.out < it->second) { c.violate(prop, "a complete frame is not converted until later bytes arrive", fmt("after %zu bytes %zu output bytes, expected at least %zu", r.delivered, r.out, it->second)); return false; }
    }
    if (!spans.empty() && spans.back().end == s.size()) {
      auto it = cum.find(s.size());
      if (it != cum.end() && it->second != g.out.size()) { c.violate(prop, "the last frame is not converted when read", fmt("%zu of %zu output bytes before the end of the stream was seen", it->second, g.out.size())); return false; }
    }
    // and the converter does not lag behind: after every frame it has
    // produced what a stream ending there produces
    if (!spans.empty()) {
      Rng r(d.seed ^ 77);
      auto &f = spans[r.below(spans.size())];
      ToolRun w = run_tool(c, d.io(Bytes(s.begin(), s.begin() + (long)f.end), RM_FULL), e);
      tool_crashes(c, w, "stream ending after a frame");
      auto it = cum.find(f.end);
      c.evals(1);
      if (!w.bad() && it != cum.end() && w.out.size() != it->second) { c.violate(prop, "a complete frame is not converted until later bytes arrive", fmt("a stream ending after %zu bytes gives %zu output bytes, of the longer stream only %zu were out by then", f.end, w.out.size(), it->second)); return false; }
    }
  }
  if (d.rerr >= 0) {
    size_t at = (size_t)d.rerr * s.size() / 1000;
    Bytes pre(s.begin(), s.begin() + (long)at);
    ToolRun w = run_tool(c, d.io(pre, RM_FULL), e);
    IOPlan q2 = d.io(s); q2.err_at = (int64_t)at;
    ToolRun x = run_tool(c, q2, e);
    c.fault("read error"); c.fault("end of stream within a frame");
    tool_crashes(c, x, "read error"); tool_crashes(c, w, "end of stream in a frame");
    c.evals(2);
    if (w.bad() || x.bad()) return false;
    if (x.out != w.out) { c.violate(prop, "a read error alters what was converted", diff(x.out, w.out)); return false; }
    // a parser that looks into what it cannot complete finds frames inside of frames
    bool inside = false;
    for (auto &f : spans) inside |= f.inert && f.at < at && at < f.end;
    if (!inside) if (w.out.size() > a.out.size() || memcmp(w.out.data(), a.out.data(), w.out.size())) { c.violate(prop, "end of stream alters what was converted", diff(w.out, a.out)); return false; }
    size_t need = 0;  // frames complete before the error are converted
    for (auto &f : spans) if (f.end <= at) need++;
    if (!dirty && need) {
      ToolRun v = run_tool(c, d.io(Bytes(s.begin(), s.begin() + (long)spans[need - 1].end), RM_FULL), e);
      c.evals(1);
      if (!v.bad() && (v.out.size() > w.out.size() || memcmp(v.out.data(), w.out.data(), v.out.size()))) { c.violate(prop, "the end of the stream drops complete frames", diff(w.out, v.out)); return false; }
    }
  }
  return true;
}

bool check_containment(Ctx &c, const char *prop, const Bytes &s, const std::vector<Span> &spans, const Delivery &d, const Entry &e, Bytes *out,
                       std::function<std::string(const Bytes &, const Bytes &)> diff) {
  Bytes clean;
  for (auto &f : spans) if (!f.inert) clean.insert(clean.end(), s.begin() + (long)f.at, s.begin() + (long)f.end);
  ToolRun a = run_tool(c, d.io(s), e);
  tool_crashes(c, a, "damaged stream");
  c.log(a.out);
  if (out) *out = a.out;
  ToolRun b = run_tool(c, d.io(clean, RM_FULL), e);
  tool_crashes(c, b, "clean stream");
  c.evals(spans.size() + 1);
  c.probe("intact frames", spans.size());
  if (a.bad() || b.bad()) return false;
  if (a.out != b.out) { c.violate(prop, "damage changes what intact frames produce", diff(a.out, b.out)); return false; }
  return true;
}

uint64_t ops_shape(const Plan &p) {
  uint64_t h = 0;
  for (auto &op : p.ops) {
    h = fnv(op.k.data(), op.k.size(), h ^ 0x9E37);
    if (!op.a.empty()) { int64_t x = op.arg(0); if (x < 4096) h = fnv(&x, 8, h); }
  }
  return h;
}
}  // namespace sim
