// Simulated process for the native structures and neighbour lists: a script gives each of a
// few threads a history of constructions, copies, assignments, queries and destructions on
// objects of its own and on shared ones that nobody changes; simsched.cc decides who runs.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <iostream>
#include <unistd.h>
#include <sys/syscall.h>
#include "nblist/include/structure.h"
#include "nblist/include/binLinkedList.h"
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/envMatrix.h"
#include "descriptor/deepmd/include/se.h"
#include "descriptor/deepmd/include/se4pw.h"
#include "simsched.h"
using namespace matersdk;
typedef Structure<double> St;
typedef Supercell<double> Su;
typedef BinLinkedList<double> Bl;
typedef NeighborList<double> Nl;
typedef deepPotSE::TildeR<double> Tr;

struct Data { int n; double lat[3][3]; std::vector<int> z; std::vector<double> x; bool cart; };
static std::map<int, Data> data;
struct Guard { Guard() { sched::enter(); } ~Guard() { sched::leave(); } };

// names of objects: g<i> shared (built before the threads start), p<i> private
struct Box { std::map<std::string, St*> st; std::map<std::string, Su*> su; std::map<std::string, Bl*> bl; std::map<std::string, Nl*> nl; std::map<std::string, Tr*> tr; };
static Box shared;
template <class T> std::map<std::string, T*>& in(Box& b);
template <> std::map<std::string, St*>& in<St>(Box& b) { return b.st; }
template <> std::map<std::string, Su*>& in<Su>(Box& b) { return b.su; }
template <> std::map<std::string, Bl*>& in<Bl>(Box& b) { return b.bl; }
template <> std::map<std::string, Nl*>& in<Nl>(Box& b) { return b.nl; }
template <> std::map<std::string, Tr*>& in<Tr>(Box& b) { return b.tr; }

struct Ctx { std::string tag; Box own; std::ostringstream out; };

template <class T> T*& at(Ctx& c, const std::string& n) { return in<T>(n[0] == 'g' ? shared : c.own)[n]; }
template <class T> void put(Ctx& c, const std::string& n, T* v)
{
    T*& p = at<T>(c, n);
    if (p) { Guard g; delete p; }
    p = v;
}

static void num(std::ostream& o, double v) { char b[40]; snprintf(b, sizeof b, " %.17g", v); o << b; }

static void dump(Ctx& c, const St& s)
{
    auto& o = c.out;
    int n; const double** lat; const int* z; const double** x; const double* org = nullptr; double *pl, *ip; double** lim = nullptr;
    { Guard g; n = s.get_num_atoms(); lat = s.get_basis_vectors(); z = s.get_atomic_numbers(); x = s.get_cart_coords();
      if (n) { org = s.get_pseudo_origin(); } pl = s.get_projected_lengths(); ip = s.get_interplanar_distances();
      if (n) lim = s.get_limit_xyz(); }
    o << n;
    if (n) {
        o << " L"; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) num(o, lat[i][k]);
        o << " O"; for (int k = 0; k < 3; k++) num(o, org[k]);
        o << " P"; for (int k = 0; k < 3; k++) num(o, pl[k]);
        o << " I"; for (int k = 0; k < 3; k++) num(o, ip[k]);
        o << " M"; for (int k = 0; k < 3; k++) for (int q = 0; q < 2; q++) num(o, lim[k][q]);
        o << " Z"; for (int i = 0; i < n; i++) o << " " << z[i];
        o << " X"; for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) num(o, x[i][k]);
        Guard g;
        free(pl); free(ip); for (int k = 0; k < 3; k++) free(lim[k]); free(lim);
    } else if (lat || z || x || pl || ip) o << " notnull";
}

static void dump(Ctx& c, const Su& s)
{
    auto& o = c.out;
    int n, pn; const int *sm, *own;
    { Guard g; n = s.get_num_atoms(); pn = s.get_prim_num_atoms(); sm = s.get_scaling_matrix(); own = s.get_owned_atom_idxs(); }
    o << n << " " << pn;
    o << " S"; for (int k = 0; k < 3; k++) o << " " << sm[k];
    if (n) {
        o << " C " << s.get_prim_cell_idx(); for (int k = 0; k < 3; k++) o << " " << s.get_prim_cell_idx_xyz()[k];
        o << " W"; for (int i = 0; i < pn; i++) o << " " << own[i];
        o << " T ";
        dump(c, s.get_structure());
    }
}

static void dump(Ctx& c, const Bl& b)
{
    auto& o = c.out;
    int n = b.get_supercell().get_num_atoms(), pn = b.get_supercell().get_prim_num_atoms();
    o << n << " " << pn;
    if (!n) return;
    o << " B"; for (int k = 0; k < 3; k++) num(o, b.get_bin_size_xyz()[k]);
    int nb; { Guard g; nb = b.get_num_neigh_bins(); }
    int tot = b.get_num_bin_xyz()[0] * b.get_num_bin_xyz()[1] * b.get_num_bin_xyz()[2];
    o << " N " << nb << " " << tot;
    bool ok = true, home = true;
    for (int i = 0; i < pn; i++) {
        int* q; int h; { Guard g; h = b.get_bin_idx(i); q = b.get_neigh_bins(i); }
        bool here = false;
        for (int k = 0; k < nb; k++) { if (q[k] < -1 || q[k] >= tot) ok = false; if (q[k] == h) here = true; }
        if (!here) home = false;
        Guard g; free(q);
    }
    o << " K " << ok << " " << home << " A";
    for (int i = 0; i < pn; i++) {
        std::vector<int> v; { Guard g; v = b.get_neigh_atoms(i); }
        o << " ;"; for (int k : v) o << " " << k;
        { Guard g; std::vector<int>().swap(v); }
    }
    o << " U ";
    dump(c, b.get_supercell());
}

static void dump(Ctx& c, Nl& l)
{
    auto& o = c.out;
    int n; { Guard g; n = l.get_num_center_atoms(); }
    o << n;
    if (!n) return;
    int mx; { Guard g; mx = l.get_max_num_neigh_atoms(); }
    o << " R"; num(o, l.get_rcut());
    o << " G " << mx;
    const St& s = l.get_binLinkedList().get_supercell().get_structure();
    const int* z = s.get_atomic_numbers();
    std::map<int, int> kinds;
    for (int i = 0; i < n; i++) kinds[z[i]] = 1;
    o << " H";
    for (auto& a : kinds) for (auto& b : kinds) { int k; { Guard g; k = l.get_max_num_neigh_atoms_ssss(a.first, b.first); } o << " " << a.first << " " << b.first << " " << k; }
    int um = mx + 1 + n % 3, inum = -1, ng = -1;
    // guarded blocks of exactly the documented lengths
    std::vector<int> il(n, 7), nn(n, 7), fn(n * um, 7), ty(n, 7);
    std::vector<double> rc(n * um * 3, 7.);
    int* fp = (int*)malloc(sizeof(int) * n * um); double* rp = (double*)malloc(sizeof(double) * n * um * 3);
    { Guard g; l.find_info4mlff(inum, il.data(), nn.data(), fp, rp, ty.data(), ng, um); }
    o << " F " << inum << " " << ng << " " << um;
    o << " i"; for (int i = 0; i < n; i++) o << " " << il[i];
    o << " t"; for (int i = 0; i < n; i++) o << " " << ty[i];
    for (int i = 0; i < n; i++) {
        o << " c " << nn[i] << " " << l.get_neighbor_lists()[i].size();
        for (int k = 0; k < um; k++) {
            o << " " << fp[i * um + k];
            for (int d = 0; d < 3; d++) num(o, rp[(i * um + k) * 3 + d]);
        }
    }
    free(fp); free(rp);
    o << " Y ";
    dump(c, l.get_binLinkedList());
}

// the environment matrix of a neighbour list (types numbered by atomic number)
static void env(Ctx& c, Nl& l, double rs)
{
    auto& o = c.out;
    int n = l.get_num_center_atoms();
    o << n;
    if (!n) return;
    const int* z = l.get_binLinkedList().get_supercell().get_structure().get_atomic_numbers();
    std::map<int, int> kind;
    for (int i = 0; i < n; i++) kind[z[i]] = 0;
    int nt = 0; for (auto& k : kind) k.second = nt++;
    std::vector<int> per(nt, 0);
    for (auto& a : kind) for (auto& b : kind) { int k = l.get_max_num_neigh_atoms_ssss(a.first, b.first); if (k > per[b.second]) per[b.second] = k; }
    int um = 0; for (int& p : per) um += p;
    if (um == 0) { o << " none"; return; }
    int inum, ng;
    std::vector<int> il(n), nn(n), fn(n * um), ty(n);
    std::vector<double> rc(n * um * 3);
    l.find_info4mlff(inum, il.data(), nn.data(), fn.data(), rc.data(), ty.data(), ng, um);
    for (int& t : ty) t = kind[t];
    double* r = (double*)malloc(sizeof(double) * n * um * 4); double* d = (double*)malloc(sizeof(double) * n * um * 12);
    { Guard g; deepPotSE::EnvMatrix<double>::find_value_deriv(r, d, inum, il.data(), nn.data(), fn.data(), rc.data(), ty.data(), nt, per.data(), l.get_rcut(), rs); }
    o << " " << um << " p"; for (int p : per) o << " " << p;
    o << " r"; for (int i = 0; i < n * um * 4; i++) num(o, r[i]);
    o << " d"; for (int i = 0; i < n * um * 12; i++) num(o, d[i]);
    free(r); free(d);
}

static void cells(std::ostream& o, double*** r, double**** d, int n, int m)
{
    o << " r"; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) num(o, r[i][j][k]);
    o << " d"; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) for (int q = 0; q < 3; q++) num(o, d[i][j][k][q]);
}

static void dump(Ctx& c, const Tr& t)
{
    auto& o = c.out;
    int n, m; { Guard g; n = t.get_num_center_atoms(); m = t.get_num_neigh_atoms(); }
    o << n << " " << m;
    if (!n || !m) return;
    double*** r; double**** d;
    { Guard g; r = t.generate(); d = t.deriv(); }
    cells(o, r, d, n, m);
    Guard g; arrayUtils::free3dArray(r, n, m); arrayUtils::free4dArray(d, n, m, 4);
}

// the same features from the arrays of an MD code: atoms of the supercell, lists of indices
static void lmp(Ctx& c, Nl& l, double rs)
{
    auto& o = c.out;
    int n = l.get_num_center_atoms();
    const Su& su = l.get_binLinkedList().get_supercell();
    int N = su.get_num_atoms(), nt = 0, um = 0;
    int* z = (int*)su.get_structure().get_atomic_numbers();
    double** x = (double**)su.get_structure().get_cart_coords();
    std::map<int, int> kind;
    for (int i = 0; i < n; i++) kind[z[i]] = 0;
    for (auto& k : kind) k.second = nt++;
    std::vector<int> per(nt, 0), an(nt), il(n), nn(n), ty(N);
    for (auto& k : kind) an[k.second] = k.first;
    for (auto& a : kind) for (auto& b : kind) per[b.second] = std::max(per[b.second], l.get_max_num_neigh_atoms_ssss(a.first, b.first));
    for (int p : per) um += p;
    o << n;
    if (!um) { o << " none"; return; }
    std::vector<int> fl(n * um, 0);
    std::vector<int*> fn(n);
    std::vector<double> xs(3 * N);
    for (int i = 0; i < N; i++) { ty[i] = kind[z[i]]; for (int k = 0; k < 3; k++) xs[3 * i + k] = x[i][k]; }
    for (int i = 0; i < n; i++) {
        const std::vector<int>& v = l.get_neighbor_lists()[i];
        il[i] = su.get_owned_atom_idxs()[i]; nn[i] = (int)v.size();
        std::copy(v.begin(), v.end(), fl.begin() + i * um);
        fn[i] = &fl[i * um];
    }
    o << " " << um << " p"; for (int p : per) o << " " << p;
    double*** r; double**** d; double rc = l.get_rcut();
    { Guard g; r = Tr::generate(n, il.data(), nn.data(), fn.data(), x, z, nt, an.data(), nt, an.data(), per.data(), rc, rs);
      d = Tr::deriv(n, il.data(), nn.data(), fn.data(), x, z, nt, an.data(), nt, an.data(), per.data(), rc, rs); }
    cells(o, r, d, n, um);
    { Guard g;
      Tr::generate(r, n, il.data(), nn.data(), fn.data(), x, z, nt, an.data(), nt, an.data(), per.data(), rc, rs);
      Tr::deriv(d, n, il.data(), nn.data(), fn.data(), x, z, nt, an.data(), nt, an.data(), per.data(), rc, rs); }
    cells(o, r, d, n, um);
    { Guard g; arrayUtils::free3dArray(r, n, um); arrayUtils::free4dArray(d, n, um, 4); }
    double* a = (double*)malloc(sizeof(double) * n * um * 4); double* b = (double*)malloc(sizeof(double) * n * um * 12); double* q = (double*)malloc(sizeof(double) * n * um * 3);
    int* pi = (int*)malloc(sizeof(int) * n * um);
    { Guard g; deepPotSE::Se4pw<double>::generate(a, b, q, n, il.data(), nn.data(), fl.data(), xs.data(), ty.data(), nt, per.data(), rc, rs);
      deepPotSE::Se4pw<double>::get_prim_indices_from_matersdk(pi, n, il.data(), nn.data(), fl.data(), ty.data(), nt, per.data()); }
    o << " r"; for (int i = 0; i < n * um * 4; i++) num(o, a[i]);
    o << " d"; for (int i = 0; i < n * um * 12; i++) num(o, b[i]);
    o << " q"; for (int i = 0; i < n * um * 3; i++) num(o, q[i]);
    o << " i"; for (int i = 0; i < n * um; i++) o << " " << pi[i];
    free(a); free(b); free(q); free(pi);
}

static St* build(const Data& d)
{
    std::vector<int> z = d.z; std::vector<double> x = d.x;
    double lat[3][3]; memcpy(lat, d.lat, sizeof lat);
    Guard g;
    return new St(d.n, lat, z.data(), (double(*)[3])x.data(), d.cart);
}

static St* build2(const Data& d)
{
    std::vector<int> z = d.z; std::vector<double> x = d.x;
    double lat[3][3]; memcpy(lat, d.lat, sizeof lat);
    double* lp[3] = {lat[0], lat[1], lat[2]};
    std::vector<double*> xp; for (int i = 0; i < d.n; i++) xp.push_back(x.data() + 3 * i);
    Guard g;
    return new St(d.n, lp, z.data(), xp.data(), d.cart);
}

template <class T> bool generic(Ctx& c, const std::string& op, std::istringstream& is)
{
    std::string a, b, d;
    is >> a >> b >> d;
    if (op == "null") { T* t; { Guard g; t = new T(); } put<T>(c, a, t); }
    else if (op == "copy") { T* t; const T& s = *at<T>(c, b); { Guard g; t = new T(s); } put<T>(c, a, t); }
    else if (op == "assign") { T& t = *at<T>(c, a); const T& s = *at<T>(c, b); T* r; { Guard g; r = &(t = s); } if (r != &t) c.out << c.tag << " wrongref\n"; }
    else if (op == "chain") { T& t = *at<T>(c, a); T& s = *at<T>(c, b); const T& u = *at<T>(c, d); Guard g; t = s = u; }
    else if (op == "clear") { T& t = *at<T>(c, a); Guard g; t = T(); }
    else if (op == "byval") { const T& s = *at<T>(c, b); T* t; auto f = [](T v) { return v; }; { Guard g; t = new T(f(s)); } put<T>(c, a, t); }
    else if (op == "vec") {            // a container of values that grows
        const T& s = *at<T>(c, b); T* t;
        { Guard g; std::vector<T> v; v.push_back(s); v.push_back(T()); v.push_back(v[0]); v.erase(v.begin()); v.insert(v.begin(), s); std::swap(v[0], v[2]); t = new T(v[2]); }
        put<T>(c, a, t);
    }
    else if (op == "drop") { put<T>(c, a, nullptr); }
    else if (op == "dump") { c.out << c.tag << " dump "; dump(c, *at<T>(c, a)); c.out << "\n"; }
    else return false;
    return true;
}

static void step(Ctx& c, const std::string& line)
{
    std::istringstream is(line);
    std::string op, k, a, b;
    is >> op >> k;
    if (op == "build" || op == "build2") { is >> a; int id; is >> id; put<St>(c, a, op == "build" ? build(data[id]) : build2(data[id])); return; }
    if (op == "super") { int m[3]; is >> a >> m[0] >> m[1] >> m[2]; St& s = *at<St>(c, a); Guard g; s.make_supercell(m); return; }
    if (op == "make") {
        is >> a >> b;
        const St& s = *at<St>(c, b);
        if (k == "Su") { int m[3]; is >> m[0] >> m[1] >> m[2]; Su* t; { Guard g; t = new Su(s, m); } put<Su>(c, a, t); return; }
        double rc, bs[3]; bool pbc[3], sort; int custom;
        is >> rc >> pbc[0] >> pbc[1] >> pbc[2] >> sort >> custom >> bs[0] >> bs[1] >> bs[2];
        if (k == "Bl") { Bl* t; { Guard g; t = custom ? new Bl(s, rc, bs, pbc) : new Bl(s, rc, pbc); } put<Bl>(c, a, t); }
        else { Nl* t; { Guard g; t = custom ? new Nl(s, rc, bs, pbc, sort) : new Nl(s, rc, pbc, sort); } put<Nl>(c, a, t); }
        return;
    }
    if (op == "tilde") {
        int nc, nn, pad; double rs;
        is >> a >> b >> rs >> nc; std::vector<int> cl(nc); for (int& v : cl) is >> v;
        is >> nn; std::vector<int> nl(nn), per(nn); for (int& v : nl) is >> v;
        is >> pad; if (pad) for (int& v : per) is >> v;
        Nl& l = *at<Nl>(c, b); Tr* t;
        { Guard g; t = pad ? new Tr(l, nc, cl.data(), nn, nl.data(), per.data(), rs) : new Tr(l, nc, cl.data(), nn, nl.data(), rs); }
        put<Tr>(c, a, t);
        return;
    }
    if (op == "lmp") { double rs; is >> a >> rs; c.out << c.tag << " lmp "; lmp(c, *at<Nl>(c, a), rs); c.out << "\n"; return; }
    if (op == "env") { double rs; is >> a >> rs; c.out << c.tag << " env "; env(c, *at<Nl>(c, a), rs); c.out << "\n"; return; }
    bool ok = k == "St" ? generic<St>(c, op, is) : k == "Su" ? generic<Su>(c, op, is) : k == "Bl" ? generic<Bl>(c, op, is) : k == "Tr" ? generic<Tr>(c, op, is) : generic<Nl>(c, op, is);
    if (!ok) { fprintf(stderr, "bad script: %s\n", line.c_str()); exit(97); }
}

template <class T> void wipe(Box& b) { for (auto& p : in<T>(b)) if (p.second) { Guard g; delete p.second; } in<T>(b).clear(); }
static void wipe(Box& b) { wipe<Tr>(b); wipe<Nl>(b); wipe<Bl>(b); wipe<Su>(b); wipe<St>(b); }

static std::vector<std::vector<std::string>> todo;
static std::vector<std::string> outs;

static void emit(const std::string& s) { size_t k = 0; while (k < s.size()) k += write(1, s.data() + k, s.size() - k); }

static void body(int t)
{
    Ctx c;
    for (size_t i = 0; i < todo[t].size(); i++) {
        c.tag = std::to_string(t) + "." + std::to_string(i);
        step(c, todo[t][i]);
    }
    wipe(c.own);
    outs[t] = c.out.str();
}

int main()
{
    std::string line;
    int rounds = 1;
    std::vector<std::string> before, after;
    bool gone = false;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string c; is >> c;
        if (c == "data") {
            int id, cart; is >> id; Data& d = data[id]; is >> d.n >> cart; d.cart = cart;
            for (auto& r : d.lat) for (double& v : r) is >> v;
            d.z.resize(d.n); d.x.resize(3 * d.n); for (int& v : d.z) is >> v; for (double& v : d.x) is >> v;
        } else if (c == "switch") { long b; int t; is >> b >> t; sched::plan(b, t); }
        else if (c == "thread") { size_t t; is >> t; if (todo.size() <= t) todo.resize(t + 1); std::getline(is >> std::ws, line); todo[t].push_back(line); }
        else if (c == "main") { std::getline(is >> std::ws, line); (gone ? after : before).push_back(line); }
        else if (c == "rounds") is >> rounds;
        else if (c == "go") gone = true;
    }
    for (int r = 0; r < rounds; r++) {
        Ctx m;
        int i = 0;
        for (auto& l : before) { m.tag = "m." + std::to_string(i++); step(m, l); }
        outs.assign(todo.size(), "");
        if (!todo.empty()) sched::run((int)todo.size(), body);
        for (auto& l : after) { m.tag = "m." + std::to_string(i++); step(m, l); }        // what the shared objects hold afterwards
        wipe(shared); wipe(m.own);
        std::string s;
        if (!r) {
            s = m.out.str();
            for (auto& o : outs) s += o;
            s += "blocks " + std::to_string(sched::blocks()) + "\nsched " + std::to_string(sched::switches()) + " " + std::to_string(sched::digest()) + "\n";
        }
        m.out.str("");
        emit(s + "live " + std::to_string(sched::live()) + " " + std::to_string(sched::live_bytes()) + "\n");
    }
    return 0;
}
