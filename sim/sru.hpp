#ifndef SRU_HPP
#define SRU_HPP
#include "env.hpp"
namespace sim {
struct SruRec { long long pos; std::string data, schema, packing; int diag; };
struct SruResp {
    bool wellformed = false;
    std::string root;                 // searchRetrieveResponse, ...
    long long hits = -1, next = -1;
    std::vector<SruRec> recs;
    std::vector<int> diags;
    std::string explain_db, explain_host;
};
SruResp parse_sru(const std::string &body);
std::string urlenc(const std::string &s);
}
#endif
