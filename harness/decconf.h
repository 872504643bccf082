// A decoder configuration as decoder.cc would parse it from a command line.
#ifndef DECCONF_H_
#define DECCONF_H_
#include <boost/program_options.hpp>
#include <string>
#include <vector>
inline boost::program_options::variables_map dec_conf(const std::vector<std::string>& args) {
  namespace po = boost::program_options; using std::string; using std::vector;
  po::options_description o;
  o.add_options()("formalism,f", po::value<string>())("grammar,g", po::value<vector<string>>()->composing())
    ("per_sentence_grammar_file", po::value<string>())
    ("add_pass_through_rules,P", "")("add_extra_pass_through_features,Q", po::value<unsigned int>()->default_value(0))
    ("goal", po::value<string>()->default_value("S"))("scfg_extra_glue_grammar", po::value<string>())
    ("scfg_no_hiero_glue_grammar,n", "")("scfg_default_nt,d", po::value<string>()->default_value("X"))
    ("scfg_max_span_limit,S", po::value<int>()->default_value(10))("show_tree_structure", "")
    ("coarse_to_fine_beam_prune", po::value<double>())("ctf_beam_widen", po::value<double>()->default_value(2.0))
    ("ctf_num_widenings", po::value<int>()->default_value(2))("ctf_no_exhaustive", "")
    ("lextrans_dynasearch", "")("lextrans_use_null", "")("lextrans_align_only", "")
    ("pb_max_distortion,D", po::value<int>()->default_value(4))("lexcrf_use_null", "")("tagger_tagset,t", po::value<string>())("csplit_output_plf", "")("csplit_preserve_full_word", "")
    ("aligner,a", "")("quiet", "");
  po::variables_map m; po::store(po::command_line_parser(args).options(o).run(), m); po::notify(m); return m;
}
#endif
