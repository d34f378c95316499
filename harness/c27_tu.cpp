// C27: a second translation unit of the same program. The library is header-only: messages sent from
// it reach the writer installed in the other one, and the other way round.
#include "htool/htool.hpp"
void vf_tu_writer(std::shared_ptr<htool::IObjectWriter> w) { htool::Logger::get_instance().set_current_writer(w); }
void vf_tu_level(unsigned l) { htool::Logger::get_instance().set_current_log_level(l); }
void vf_tu_log(unsigned l, const std::string &m) { htool::Logger::get_instance().log(static_cast<htool::LogLevel>(l), m); }
void vf_tu_library() { // a partition that is not a power of the number of children: one warning
    std::vector<double> y;
    for (int i = 0; i < 24; i++) y.push_back(i % 5 + 0.1 * i);
    htool::ClusterTreeBuilder<double> b;
    b.set_minclustersize(1);
    htool::Cluster<double> t(b.create_cluster_tree(12, 2, y.data(), 2, 3));
}
