// A statistics sink that keeps every report.
#pragma once
#include "cn.h"
#include "StatSink.h"

namespace cn {
struct Report { std::vector<Conv::Stat> stats; Conv::HardcodedStats hc; };
struct KeepSink : Conv::StatSink {
  std::vector<Conv::StatDescriptor*> desc; int inits = 0; std::vector<Report> reports; std::vector<std::string> experiments;
  void Initialize(std::vector<Conv::StatDescriptor*>& d) override { desc = d; inits++; }
  void SetCurrentExperiment(std::string e) override { experiments.push_back(e); }
  void Process(Conv::HardcodedStats& h, std::vector<Conv::Stat*>& s) override { Report r; r.hc = h; for (auto* x : s) r.stats.push_back(*x); reports.push_back(r); }
  // the statistic of that name in the last report; nullptr if there is none
  const Conv::Stat* find(const std::string& name) const { if (reports.empty()) return nullptr; for (size_t k = 0; k < desc.size() && k < reports.back().stats.size(); k++) if (desc[k]->description == name) return &reports.back().stats[k]; return nullptr; }
};
// a fresh aggregator takes the place of the process-wide one
inline Conv::StatAggregator& fresh_aggregator() { Conv::System::stat_aggregator = new Conv::StatAggregator; return *Conv::System::stat_aggregator; }
}  // namespace cn
