// Interpreter of operation scripts on OnexAPI (the interface of the command line and of applications).
#include "common.hpp"
#include "OnexAPI.hpp"
#include "Exception.hpp"

using namespace vf;

static onex::OnexAPI* api;

static std::string info(const onex::dataset_info_t& i)
{
  return "{\"id\":" + std::to_string(i.id) + ",\"name\":" + str(i.name) + ",\"n\":" + std::to_string(i.itemCount)
    + ",\"len\":" + std::to_string(i.itemLength) + ",\"norm\":" + boolean(i.isNormalized)
    + ",\"grp\":" + boolean(i.isGrouped) + "}";
}

static std::string slurpField(const std::string& path)
{
  bool ok;
  std::string s = slurp(path, ok);
  return ok ? str(s) : "null";
}

// The whole visible state: listing, and for every dataset its values and groups as saving writes them.
static std::string observe(const std::string& scratch)
{
  std::vector<onex::dataset_info_t> l = api->getAllDatasetInfo();
  std::string out = "\"obs\":{\"count\":" + std::to_string(api->getDatasetCount()) + ",\"list\":" + list(l, info) + ",\"ds\":[";
  for (size_t k = 0; k < l.size(); k++) {
    if (k) out += ",";
    std::string d = "null", g = "null", i2 = "null";
    try { i2 = info(api->getDatasetInfo(l[k].id)); } catch (onex::OnexException&) {}
    unlink(scratch.c_str());
    try { api->saveDataset(l[k].id, scratch, ' '); d = slurpField(scratch); } catch (onex::OnexException&) {}
    unlink(scratch.c_str());
    try { api->saveGroup(l[k].id, scratch, false); g = slurpField(scratch); } catch (onex::OnexException&) {}
    unlink(scratch.c_str());
    out += "{\"info\":" + i2 + ",\"data\":" + d + ",\"groups\":" + g + "}";
  }
  return out + "]}";
}

static std::string doStep(const args_t& a)
{
  const std::string& op = a[0];
  if (op == "load") {
    onex::dataset_info_t i = api->loadDataset(unhex(a[1]), atoi(a[2].c_str()), atoi(a[3].c_str()), unhex(a[4]));
    return "\"info\":" + info(i);
  }
  if (op == "unload") { api->unloadDataset(atoi(a[1].c_str())); return "\"ok\":true"; }
  if (op == "unloadall") { api->unloadAllDataset(); return "\"ok\":true"; }
  if (op == "count") return "\"count\":" + std::to_string(api->getDatasetCount());
  if (op == "info") return "\"info\":" + info(api->getDatasetInfo(atoi(a[1].c_str())));
  if (op == "list") return "\"list\":" + list(api->getAllDatasetInfo(), info);
  if (op == "save") { api->saveDataset(atoi(a[1].c_str()), unhex(a[2]), unhex(a[3])[0]); return "\"ok\":true"; }
  if (op == "norm") {
    std::pair<onex::data_t, onex::data_t> p = api->normalizeDataset(atoi(a[1].c_str()));
    return "\"min\":" + num(p.first) + ",\"max\":" + num(p.second);
  }
  if (op == "paa") return "\"info\":" + info(api->PAA(atoi(a[1].c_str()), atoi(a[2].c_str())));
  if (op == "group") return "\"count\":" + std::to_string(api->groupDataset(atoi(a[1].c_str()), (onex::data_t)strtod(a[2].c_str(), nullptr)));
  if (op == "sgroup") { api->saveGroup(atoi(a[1].c_str()), unhex(a[2]), a[3] == "1"); return "\"ok\":true"; }
  if (op == "lgroup") return "\"count\":" + std::to_string(api->loadGroup(atoi(a[1].c_str()), unhex(a[2])));
  if (op == "ratio") { api->setWarpingBandRatio(strtod(a[1].c_str(), nullptr)); return "\"ok\":true"; }
  if (op == "match") {
    onex::candidate_time_series_t c = api->getBestMatch(atoi(a[1].c_str()), atoi(a[2].c_str()), atoi(a[3].c_str()),
                                                        atoi(a[4].c_str()), atoi(a[5].c_str()));
    std::string v = "[";
    for (int i = 0; i < c.data.getLength(); i++) v += (i ? "," : "") + num(c.data[i]);
    return "\"m\":{\"i\":" + std::to_string(c.data.getIndex()) + ",\"s\":" + std::to_string(c.data.getStart())
      + ",\"e\":" + std::to_string(c.data.getEnd()) + ",\"l\":" + std::to_string(c.data.getLength())
      + ",\"d\":" + num(c.dist) + ",\"v\":" + v + "]}";
  }
  if (op == "cat") return "\"file\":" + slurpField(unhex(a[1]));
  if (op == "obs") return observe(unhex(a[1]));
  if (op == "cd") { if (chdir(unhex(a[1]).c_str())) _exit(97); return "\"ok\":true"; }
  if (op == "flimit") { limitFileSize(atol(a[1].c_str())); return "\"ok\":true"; }
  fprintf(stderr, "unknown command %s\n", op.c_str());
  _exit(98);
}

// Another object of the interface, used in between; what comes of it is of no interest.
static void aside(const args_t& a)
{
  static onex::OnexAPI* other = nullptr;
  if (a[1] == "drop") { delete other; other = nullptr; return; }
  if (!other) other = new onex::OnexAPI();
  std::swap(api, other);
  try { doStep(args_t(a.begin() + 1, a.end())); } catch (std::exception&) {}
  std::swap(api, other);
}

static std::string step(const args_t& a)
{
  if (a[0] == "side") { aside(a); return "\"ok\":true"; }
  try { return doStep(a); }
  catch (onex::OnexException& e) { return "\"err\":" + str(e.what()); }
  catch (std::exception& e) { return "\"exc\":" + str(e.what()); }
}

int main(int argc, char** argv)
{
  return runScript(argc, argv, [] { api = new onex::OnexAPI(); }, step);
}
