// Interpreter of operation scripts on objects of class GroupableTimeSeriesSet.
#include "common.hpp"
#include <map>
#include <memory>
#include "GroupableTimeSeriesSet.hpp"
#include "TimeSeriesSet.hpp"
#include "TimeSeries.hpp"
#include "distance/Distance.hpp"
#include "Exception.hpp"

using namespace vf;
using onex::data_t;

static std::map<int, onex::GroupableTimeSeriesSet*>* sets;

static onex::GroupableTimeSeriesSet& at(const std::string& k) { return *sets->at(atoi(k.c_str())); }

static std::string slurpField(const std::string& path)
{
  bool ok;
  std::string s = slurp(path, ok);
  return ok ? str(s) : "null";
}

static std::string values(const onex::TimeSeries& t)
{
  std::string v = "[";
  for (int i = 0; i < t.getLength(); i++) v += (i ? "," : "") + num(t[i]);
  return v + "]";
}

static std::string series(const onex::TimeSeries& t)
{
  std::string out = "{\"i\":" + std::to_string(t.getIndex()) + ",\"s\":" + std::to_string(t.getStart()) + ",\"e\":"
    + std::to_string(t.getEnd()) + ",\"l\":" + std::to_string(t.getLength()) + ",\"v\":" + values(t);
  std::ostringstream text;
  t.printData(text);
  return out + ",\"text\":" + str(text.str()) + ",\"ident\":" + str(t.getIdentifierString()) + "}";
}

static std::string observe(const std::string& scratch)
{
  std::string out = "\"obs\":{\"ds\":[";
  bool first = true;
  for (auto& kv : *sets) {
    if (!first) out += ",";
    first = false;
    onex::GroupableTimeSeriesSet& s = *kv.second;
    std::string g = "null", rows = "[";
    for (int i = 0; i < s.getItemCount(); i++) rows += (i ? "," : "") + values(s.getTimeSeries(i));
    unlink(scratch.c_str());
    try { s.saveGroups(scratch, false); g = slurpField(scratch); } catch (onex::OnexException&) {}
    unlink(scratch.c_str());
    out += "{\"id\":" + std::to_string(kv.first) + ",\"name\":" + str(s.getFilePath()) + ",\"n\":" + std::to_string(s.getItemCount())
      + ",\"len\":" + std::to_string(s.getItemLength()) + ",\"norm\":" + boolean(s.isNormalized())
      + ",\"grp\":" + boolean(s.isGrouped()) + ",\"loaded\":" + boolean(s.isLoaded()) + ",\"rows\":" + rows + "],\"groups\":" + g + "}";
  }
  return out + "]}";
}

static std::string match(onex::GroupableTimeSeriesSet& target, const onex::TimeSeries& q)
{
  onex::candidate_time_series_t c = target.getBestMatch(q);
  return "\"m\":{\"i\":" + std::to_string(c.data.getIndex()) + ",\"s\":" + std::to_string(c.data.getStart())
    + ",\"e\":" + std::to_string(c.data.getEnd()) + ",\"l\":" + std::to_string(c.data.getLength())
    + ",\"d\":" + num(c.dist) + ",\"v\":" + values(c.data) + "}";
}

static std::string doStep(const args_t& a)
{
  const std::string& op = a[0];
  auto n = [&a](int i) { return atoi(a[i].c_str()); };
  if (op == "new") { (*sets)[n(1)] = new onex::GroupableTimeSeriesSet(); return "\"ok\":true"; }
  if (op == "del") { delete sets->at(n(1)); sets->erase(n(1)); return "\"ok\":true"; }
  if (op == "load") { at(a[1]).loadData(unhex(a[2]), n(3), n(4), unhex(a[5])); return "\"ok\":true"; }
  if (op == "clear") { at(a[1]).clearData(); return "\"ok\":true"; }
  if (op == "reset") { at(a[1]).reset(); return "\"ok\":true"; }
  if (op == "save") { at(a[1]).saveData(unhex(a[2]), unhex(a[3])[0]); return "\"ok\":true"; }
  if (op == "norm") {
    std::pair<data_t, data_t> p = at(a[1]).normalize();
    return "\"min\":" + num(p.first) + ",\"max\":" + num(p.second);
  }
  if (op == "paa") { at(a[1]).PAA(n(2)); return "\"ok\":true"; }
  if (op == "group") return "\"count\":" + std::to_string(at(a[1]).groupAllLengths(a[2], (data_t)strtod(a[3].c_str(), nullptr)));
  if (op == "sgroup") { at(a[1]).saveGroups(unhex(a[2]), a[3] == "1"); return "\"ok\":true"; }
  if (op == "lgroup") return "\"count\":" + std::to_string(at(a[1]).loadGroups(unhex(a[2])));
  if (op == "ratio") { onex::setWarpingBandRatio(strtod(a[1].c_str(), nullptr)); return "\"ok\":true"; }
  if (op == "match") return match(at(a[1]), at(a[2]).getTimeSeries(n(3), n(4), n(5)));
  if (op == "matchv") {
    int len = n(2);
    onex::TimeSeries q(len);
    for (int i = 0; i < len; i++) q[i] = (data_t)strtod(a[3 + i].c_str(), nullptr);
    return match(at(a[1]), q);
  }
  if (op == "sub") return "\"sub\":" + series(at(a[1]).getTimeSeries(n(2), n(3), n(4)));
  if (op == "pt") {
    onex::TimeSeries t = at(a[1]).getTimeSeries(n(2), n(3), n(4));
    return "\"pt\":" + num(t[n(5)]);
  }
  if (op == "dist") {
    // distance between a part of set 1 and a part of set 5
    onex::TimeSeries q = at(a[5]).getTimeSeries(n(6), n(7), n(8));
    return "\"d\":" + num(at(a[1]).distanceBetween(n(2), n(3), n(4), q, a[9]));
  }
  if (op == "cat") return "\"file\":" + slurpField(unhex(a[1]));
  if (op == "obs") return observe(unhex(a[1]));
  if (op == "flimit") { limitFileSize(atol(a[1].c_str())); return "\"ok\":true"; }
  fprintf(stderr, "unknown command %s\n", op.c_str());
  _exit(98);
}

static std::string step(const args_t& a)
{
  try { return doStep(a); }
  catch (onex::OnexException& e) { return "\"err\":" + str(e.what()); }
  catch (std::exception& e) { return "\"exc\":" + str(e.what()); }
}

int main(int argc, char** argv)
{
  return runScript(argc, argv, [] { sets = new std::map<int, onex::GroupableTimeSeriesSet*>(); }, step);
}
