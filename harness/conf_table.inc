static const std::map<std::string, std::set<std::string>> TABLE = {
    {"amax", {""}},
    {"desc-big", {""}},
    {"desc-gb", {""}},
    {"desc-ge", {""}},
    {"desc-pb", {""}},
    {"desc-tr", {""}},
    {"gbmm", {"gbmm_nb"}},
    {"gbsv", {"gbtrf_ib,gbtrf_max_panel_threads,gbtrf_nb"}},
    {"gbsv-mixed", {"gbtrf_ib,gbtrf_max_panel_threads,gbtrf_nb"}},
    {"gbtrf", {"gbtrf_ib,gbtrf_max_panel_threads,gbtrf_nb"}},
    {"gbtrs", {"gbtrf_ib,gbtrf_max_panel_threads,gbtrf_nb"}},
    {"geadd", {"geadd_nb"}},
    {"geinv", {"geinv_ib,geinv_max_panel_threads,geinv_nb"}},
    {"gelqf", {"gelqf_ib,gelqf_nb"}},
    {"gelqs", {"gelqf_ib,gelqf_nb"}},
    {"gels", {"gelqf_ib,gelqf_nb", "geqrf_ib,geqrf_nb"}},
    {"gemm", {"gemm_nb"}},
    {"geqrf", {"geqrf_ib,geqrf_nb"}},
    {"geqrs", {"geqrf_ib,geqrf_nb"}},
    {"gesdd", {""}},
    {"gesv", {"getrf_ib,getrf_max_panel_threads,getrf_nb"}},
    {"gesv-mixed", {"getrf_ib,getrf_max_panel_threads,getrf_nb"}},
    {"geswp", {"geswp_nb"}},
    {"getrf", {"getrf_ib,getrf_max_panel_threads,getrf_nb"}},
    {"getri", {"getrf_ib,getrf_max_panel_threads,getrf_nb"}},
    {"getri_aux", {""}},
    {"getrs", {"trsm_nb"}},
    {"hemm", {"symm_nb"}},
    {"her2k", {"syr2k_nb"}},
    {"herk", {"syrk_nb"}},
    {"hesv", {"hetrf_nb"}},
    {"hetrf", {"hetrf_nb"}},
    {"hetrs", {"hetrf_nb"}},
    {"lacpy", {"lacpy_nb"}},
    {"lag2-down", {"lag2c_nb"}},
    {"lag2-up", {""}},
    {"langb", {""}},
    {"lange", {"lange_nb"}},
    {"lanhe", {"lansy_nb"}},
    {"lansy", {"lansy_nb"}},
    {"lantr", {"lantr_nb"}},
    {"lascl", {"lascl_nb"}},
    {"laset", {"laset_nb"}},
    {"lauum", {"lauum_nb"}},
    {"pbsv", {"pbtrf_nb"}},
    {"pbtrf", {"pbtrf_nb"}},
    {"pbtrs", {"trsm_nb"}},
    {"poinv", {"poinv_nb"}},
    {"posv", {"potrf_nb"}},
    {"posv-mixed", {"potrf_nb"}},
    {"potrf", {"potrf_nb"}},
    {"potri", {"trtri_nb"}},
    {"potrs", {"trsm_nb"}},
    {"stevx2", {"", "geqrf_ib,geqrf_nb"}},
    {"symm", {"symm_nb"}},
    {"syr2k", {"syr2k_nb"}},
    {"syrk", {"syrk_nb"}},
    {"tradd", {"tradd_nb"}},
    {"trmm", {"trmm_nb"}},
    {"trsm", {"trsm_nb"}},
    {"trtri", {"trtri_nb"}},
    {"unglq", {"gelqf_ib,gelqf_nb"}},
    {"ungqr", {"geqrf_ib,geqrf_nb"}},
    {"unmlq", {"gelqf_ib,gelqf_nb"}},
    {"unmqr", {"geqrf_ib,geqrf_nb"}},
};
