// Interpreter of scripts on time series objects and distances.
#include "common.hpp"
#include <map>
#include <memory>
#include "TimeSeries.hpp"
#include "distance/Distance.hpp"
#include "Exception.hpp"

using namespace vf;
using onex::data_t;
using onex::TimeSeries;

static std::map<int, TimeSeries*>* slots;
static std::map<int, std::vector<data_t>*>* bufs;
static double last = 0;      // last distance returned

static std::string values(const TimeSeries& t)
{
  std::string v = "[";
  for (int i = 0; i < t.getLength(); i++) v += (i ? "," : "") + num(t[i]);
  return v + "]";
}

static TimeSeries& at(const std::string& k) { return *slots->at(atoi(k.c_str())); }

static std::string dump()
{
  std::string out = "\"slots\":[";
  bool first = true;
  for (auto& kv : *slots) {
    if (!first) out += ",";
    first = false;
    TimeSeries& t = *kv.second;
    out += "{\"k\":" + std::to_string(kv.first) + ",\"i\":" + std::to_string(t.getIndex()) + ",\"s\":" + std::to_string(t.getStart())
      + ",\"e\":" + std::to_string(t.getEnd()) + ",\"l\":" + std::to_string(t.getLength()) + ",\"v\":" + values(t) + "}";
  }
  return out + "]";
}

static double cutoff(const std::string& a)
{
  if (a == "inf") return INF;
  if (a[0] == '*') return last * strtod(a.c_str() + 1, nullptr);       // relative to the last distance
  return strtod(a.c_str(), nullptr);
}

static std::string doStep(const args_t& a)
{
  const std::string& op = a[0];
  auto n = [&a](int i) { return atoi(a[i].c_str()); };
  if (op == "ratio") { onex::setWarpingBandRatio(strtod(a[1].c_str(), nullptr)); return "\"ok\":true"; }
  // series
  if (op == "own") {            // own k v...
    TimeSeries* t = new TimeSeries((int)a.size() - 2);
    for (size_t i = 2; i < a.size(); i++) (*t)[i - 2] = (data_t)strtod(a[i].c_str(), nullptr);
    (*slots)[n(1)] = t;
    return dump();
  }
  if (op == "zero") { (*slots)[n(1)] = new TimeSeries(n(2)); return dump(); }
  if (op == "buf") {            // buf b v...
    std::vector<data_t>* v = new std::vector<data_t>();
    for (size_t i = 2; i < a.size(); i++) v->push_back((data_t)strtod(a[i].c_str(), nullptr));
    v->shrink_to_fit();
    (*bufs)[n(1)] = v;
    return dump();
  }
  if (op == "view") { (*slots)[n(1)] = new TimeSeries(bufs->at(n(2))->data(), n(3), n(4), n(5)); return dump(); }
  if (op == "whole") { (*slots)[n(1)] = new TimeSeries(bufs->at(n(2))->data(), (int)bufs->at(n(2))->size()); return dump(); }
  if (op == "copy") { (*slots)[n(1)] = new TimeSeries(at(a[2])); return dump(); }
  if (op == "asg") { at(a[1]) = at(a[2]); return dump(); }
  if (op == "mov") {            // mov k j [r]: the temporary may have been asked for an envelope
    TimeSeries temporary(at(a[2]));
    if (a.size() > 3) { temporary.getKeoghLower(n(3)); temporary.getKeoghUpper(n(3)); }
    at(a[1]) = std::move(temporary);
    return dump();
  }
  if (op == "add") { at(a[1]) += at(a[2]); return dump(); }
  if (op == "set") { at(a[1])[n(2)] = (data_t)strtod(a[3].c_str(), nullptr); return dump(); }
  if (op == "setbuf") { bufs->at(n(1))->at(n(2)) = (data_t)strtod(a[3].c_str(), nullptr); return dump(); }
  if (op == "get") return "\"x\":" + num(at(a[1])[n(2)]) + "," + dump();
  if (op == "del") { delete slots->at(n(1)); slots->erase(n(1)); return dump(); }
  if (op == "env") {            // env k r order: which envelope is asked for first
    TimeSeries& t = at(a[1]);
    std::vector<data_t> lo, up;
    for (int k = 0; k < 2; k++) {
      bool lower = (k == 0) == (a[3] == "l");
      const data_t* p = lower ? t.getKeoghLower(n(2)) : t.getKeoghUpper(n(2));
      std::vector<data_t>& v = lower ? lo : up;
      v.assign(p, p + t.getLength());
    }
    auto f = [](data_t x) { return num(x); };
    return "\"lo\":" + list(lo, f) + ",\"up\":" + list(up, f) + "," + dump();
  }
  // distances: op a b cutoff
  if (op == "pw" || op == "wp" || op == "kg" || op == "xk" || op == "cc" || op == "npw" || op == "nwp") {
    const TimeSeries& x = at(a[1]);
    const TimeSeries& y = at(a[2]);
    data_t cut = cutoff(a[3]);
    data_t d = op == "pw" ? onex::pairwiseDistance(x, y, cut) : op == "wp" ? onex::warpedDistance(x, y, cut)
      : op == "kg" ? onex::keoghLowerBound(x, y, cut) : op == "xk" ? onex::crossKeoghLowerBound(x, y, cut)
      : op == "cc" ? onex::cascadeDistance(x, y, cut)
      : onex::getDistance(op == "npw" ? "euclidean" : "euclidean_dtw")(x, y, cut);
    if (!std::isinf(d)) last = d;
    return "\"d\":" + num(d) + ",\"cut\":" + num(cut);
  }
  if (op == "name") { onex::getDistance(unhex(a[1])); return "\"ok\":true"; }
  // candidates: cmp i1 s1 e1 d1 i2 s2 e2 d2
  if (op == "cmp") {
    data_t z[64] = {0};
    onex::candidate_time_series_t p(TimeSeries(z, n(1), n(2), n(3)), (data_t)strtod(a[4].c_str(), nullptr));
    onex::candidate_time_series_t q(TimeSeries(z, n(5), n(6), n(7)), (data_t)strtod(a[8].c_str(), nullptr));
    return "\"lt\":" + boolean(p < q) + ",\"gt\":" + boolean(q < p);
  }
  fprintf(stderr, "unknown command %s\n", op.c_str());
  _exit(98);
}

static std::string step(const args_t& a)
{
  try { return doStep(a); }
  catch (onex::OnexException& e) {
    bool obj = a[0] == "add" || a[0] == "set" || a[0] == "get" || a[0] == "asg";
    return "\"err\":" + str(e.what()) + (obj ? "," + dump() : "");
  }
  catch (std::exception& e) { return "\"exc\":" + str(e.what()); }
}

int main(int argc, char** argv)
{
  return runScript(argc, argv, [] {
    slots = new std::map<int, TimeSeries*>();
    bufs = new std::map<int, std::vector<data_t>*>();
  }, step);
}
