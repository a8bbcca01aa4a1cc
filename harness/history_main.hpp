// main() of the stateful drivers: run_case(Src&) plays one random history, logs it in LOG, counts
// in TAGS and throws Fail; failing histories are shrunk and printed.
#pragma once
namespace {
std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; }
    return r;
}
} // namespace
int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (a.count("--replay")) {
        Src s = a.count("--caseseed") ? Src(std::stoull(a["--caseseed"])) : Src(hv::split(a["--choices"]));
        if (a.count("--trace")) s.trace = fopen(a["--trace"].c_str(), "w");
        try { run_case(s); } catch (Fail& e) { printf("FAIL %s\n%s\n", e.what(), LOG.c_str()); return 3; }
        printf("ok %s\n", LOG.c_str());
        return 0;
    }
    uint64_t seed = std::stoull(a["--seed"]);
    long cases = std::stol(a["--cases"]), slice = std::stol(a["--slice"]), slices = std::stol(a["--slices"]);
    double limit = a.count("--seconds") ? std::stod(a["--seconds"]) : 1e9;
    auto t0 = std::chrono::steady_clock::now();
    int st = a.count("--state") ? open(a["--state"].c_str(), O_RDWR | O_CREAT, 0644) : -1;
    long done = 0, evals = 0, nontrivial = 0;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    bool bad = false;
    for (long k = slice; k < cases && !bad; k += slices) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
        uint64_t cs = hv::mix(seed, (uint64_t)k);
        if (st >= 0) { char b[128]; int n = snprintf(b, sizeof b, "%-60s %20llu\n", "history", (unsigned long long)cs); if (pwrite(st, b, n, 0)) {} }
        Src s(cs);
        ++done;
        try {
            Out o = run_case(s);
            evals += o.evals;
            if (o.nt) {
                ++nontrivial;
                uint64_t h = 1469598103934665603ull;
                for (auto x : s.rec) h = (h ^ x) * 1099511628211ull;
                if (distinct.insert(h).second && samples.size() < 3) samples.push_back(LOG.substr(0, 600));
            }
        } catch (Fail& e) {
            auto ch = s.rec;
            auto fails = [](const std::vector<uint64_t>& c) { Src t(c); try { run_case(t); } catch (Fail&) { return true; } return false; };
            bool again = fails(ch) && fails(ch) && fails(ch);
            auto best = again ? hv::shrink(ch, fails, 3000) : ch;
            std::string msg = e.what();
            Src t(best);
            try { run_case(t); } catch (Fail& e2) { msg = e2.what(); }
            printf("FAIL\thistory\t%s\t%d\t%s\t%s\n", hv::join(best).c_str(), (int)again, esc(msg).c_str(), esc(LOG).c_str());
            bad = true;
        }
    }
    printf("STATS\t{\"cases\":%ld,\"evals\":%ld,\"discards\":0,\"nontrivial\":%ld,\"distinct\":%zu,\"tags\":{", done, evals, nontrivial, distinct.size());
    bool f = true;
    for (auto& t : TAGS) { printf("%s\"%s\":%ld", f ? "" : ",", t.first.c_str(), t.second); f = false; }
    printf("},\"discard_reasons\":{},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    printf("]}\n");
    return bad ? 3 : 0;
}
