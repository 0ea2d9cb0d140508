// Interpreter of scripts on the groups of one length and on the order in which lengths are searched.
#include "common.hpp"
#include <memory>
#include "TimeSeriesSet.hpp"
#include "TimeSeries.hpp"
#include "LocalLengthGroupSpace.hpp"
#include "GlobalGroupSpace.hpp"
#include "Group.hpp"
#include "distance/Distance.hpp"
#include "Exception.hpp"

using namespace vf;
using namespace onex;

static std::unique_ptr<TimeSeriesSet> set;
static std::unique_ptr<LocalLengthGroupSpace> space;

static std::string values(const TimeSeries& t)
{
  std::string v = "[";
  for (int i = 0; i < t.getLength(); i++) v += (i ? "," : "") + num(t[i]);
  return v + "]";
}

static std::string groups(int count)
{
  std::string out = "\"count\":" + std::to_string(count) + ",\"groups\":[";
  for (int i = 0; i < space->getNumberOfGroups(); i++) {
    const Group* g = space->getGroup(i);
    out += std::string(i ? "," : "") + "{\"rep\":" + values(g->getCentroid()) + ",\"cnt\":" + std::to_string(g->getCount())
      + ",\"len\":" + std::to_string(g->getMemberLength())
      + ",\"mem\":" + list(g->getMembers(), [](const TimeSeries& m) {
          return "{\"i\":" + std::to_string(m.getIndex()) + ",\"s\":" + std::to_string(m.getStart()) + ",\"e\":" + std::to_string(m.getEnd())
            + ",\"v\":" + values(m) + "}";
        }) + "}";
  }
  return out + "]";
}

static TimeSeries series(const args_t& a, size_t from)
{
  TimeSeries q((int)(a.size() - from));
  for (size_t i = from; i < a.size(); i++) q[i - from] = (data_t)strtod(a[i].c_str(), nullptr);
  return q;
}

static dist_t warped(const std::string& name)
{
  return name == "cascade" ? dist_t(cascadeDistance) : dist_t(warpedDistance);
}

static std::string doStep(const args_t& a)
{
  const std::string& op = a[0];
  auto n = [&a](int i) { return atoi(a[i].c_str()); };
  auto x = [&a](int i) { return (data_t)(a[i] == "inf" ? INF : strtod(a[i].c_str(), nullptr)); };
  if (op == "ratio") { setWarpingBandRatio(strtod(a[1].c_str(), nullptr)); return "\"ok\":true"; }
  if (op == "data") {           // data path seps
    space.reset();
    set.reset(new TimeSeriesSet());
    set->loadData(unhex(a[1]), -1, 0, unhex(a[2]));
    return "\"n\":" + std::to_string(set->getItemCount()) + ",\"len\":" + std::to_string(set->getItemLength());
  }
  if (op == "make") { space.reset(new LocalLengthGroupSpace(*set, n(1))); return "\"count\":" + std::to_string(space->getNumberOfGroups()); }
  if (op == "empty") { space->reset(); return "\"count\":" + std::to_string(space->getNumberOfGroups()); }
  if (op == "space") {          // space distance threshold
    int count = space->generateGroups(getDistance(a[1]), x(2));
    return groups(count);
  }
  if (op == "which") { return "\"member\":" + std::to_string(space->getGroup(n(1))->getMemberLength()); }
  if (op == "best") {           // best distance cutoff values
    candidate_group_t c = space->getBestGroup(series(a, 3), warped(a[1]), x(2));
    int k = -1;
    for (int i = 0; i < space->getNumberOfGroups(); i++) if (space->getGroup(i) == c.first) k = i;
    if (k < 0 && c.first != nullptr) k = -2;
    return "\"k\":" + std::to_string(k) + ",\"d\":" + num(c.second);
  }
  if (op == "inner") {          // inner distance group values
    candidate_time_series_t c = space->getGroup(n(2))->getBestMatch(series(a, 3), warped(a[1]));
    return "\"i\":" + std::to_string(c.data.getIndex()) + ",\"s\":" + std::to_string(c.data.getStart()) + ",\"e\":" + std::to_string(c.data.getEnd())
      + ",\"d\":" + num(c.dist);
  }
  if (op == "order") return "\"order\":" + list(generateTraverseOrder(n(1), n(2)), [](int i) { return std::to_string(i); });
  fprintf(stderr, "unknown command %s\n", op.c_str());
  _exit(98);
}

static std::string step(const args_t& a)
{
  try { return doStep(a); }
  catch (OnexException& e) { return "\"err\":" + str(e.what()); }
  catch (std::exception& e) { return "\"exc\":" + str(e.what()); }
}

int main(int argc, char** argv)
{
  return runScript(argc, argv, [] {}, step);
}
