// driver: runs one registered operator on symbolic tensors along one path and prints it
#include "symx_at.h"
namespace symx
{
std::map<std::string, Fn> &registry() { static std::map<std::string, Fn> r; return r; }
static std::string prefix;
static size_t pos = 0;
static std::map<std::string, bool> seen;
std::vector<int> unroll;
int trips = 4;
void note(const std::string &l) { puts(l.c_str()); }
void mutated(int birth, bool data)
{
    if (birth >= depth) return;
    if (par >= 0 && birth < par) note(data ? "S scalar" : "S index");
    if (!data)
        for (int i = birth; i < depth; i++)
            if (std::find(unroll.begin(), unroll.end(), scopes[i]) == unroll.end()) note("C " + std::to_string(scopes[i]));
}
bool decide(const std::string &c)
{
    auto it = seen.find(c);
    if (it != seen.end()) return it->second;
    bool t;
    if (pos < prefix.size()) t = prefix[pos++] == '1';
    else
    {
        puts(("Q " + c).c_str());
        exit(0);
    }
    puts((std::string("B ") + (t ? "1 " : "0 ") + c).c_str());
    seen[c] = t;
    // (not c) and c are one decision
    if (c.rfind("(not ", 0) == 0) seen[c.substr(5, c.size() - 6)] = !t;
    else seen["(not " + c + ")"] = !t;
    return t;
}
} // namespace symx
int main(int argc, char **argv)
{
    using namespace symx;
    if (argc == 2)
    {
        for (auto &p : registry()) puts(p.first.c_str());
        return 0;
    }
    auto f = registry().find(argv[1]);
    if (f == registry().end()) { puts("U not registered"); return 0; }
    at::Tensor in[3];
    const char *nm[3] = {"A", "zi", "x"};
    for (int k = 0; k < 3; k++)
    {
        int rank, dt;
        sscanf(argv[2 + k], "%d:%d", &rank, &dt);
        std::vector<SInt> sz, st;
        for (int i = 0; i < rank; i++)
        {
            sz.push_back(SInt(nm[k] + std::to_string(i), 64));
            st.push_back(SInt(nm[k] + std::string("_s") + std::to_string(i), 64));
        }
        in[k] = at::Tensor::fresh(sz, (c10::ScalarType)dt, true);
        in[k].st = st;
        in[k].pristine = nm[k];
        in[k].sto->input = true;
        printf("T %d %s\n", in[k].sto->id, nm[k]);
    }
    prefix = argc > 5 ? argv[5] : "";
    for (int i = 6; i < argc; i++) unroll.push_back(atoi(argv[i]));
    try
    {
        at::Tensor r = f->second(in[0], in[1], in[2]);
        std::string l = "R";
        for (auto &v : r.sz) l += " " + v.str() + " ;";
        l += " | ";
        for (auto &v : r.st) l += " " + v.str() + " ;";
        l += " | " + std::to_string((int)r.dt) + " " + (r.layout_unknown ? "1" : "0") + " " + std::to_string(r.sto->id) + " " + (r.sto->input ? "1" : "0") + " " + (r.sto->init ? "1" : "0") + (r.sto->written ? " 1" : " 0") + " | " + r.off.str();
        puts(l.c_str());
    }
    catch (Reject &e) { puts(("X " + e.why).c_str()); }
    catch (Unsupported &e) { puts(("U " + e.why).c_str()); }
    catch (std::exception &e) { puts((std::string("U ") + e.what()).c_str()); }
    return 0;
}
