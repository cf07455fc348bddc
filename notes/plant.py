"""dev tool: write seeded/<id>/ from edits against /repo's working tree"""
import difflib, json, os
S = '/repo/sparta/sparta/'
DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the guarantee holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'find "$t" -delete' EXIT
g++ -std=gnu++17 -O0 -w -DSIMDB_ENABLED=0 -DSPARTA_VERSION='"x"' -DRAPIDJSON_NOMEMBERITERATORCLASS -I"$PWD/sparta/." "$d/demo.cpp" -o "$t/demo" \\
    _build/libsparta.a -lyaml-cpp -lz -lboost_date_time -lboost_iostreams -lboost_serialization -lboost_timer -lboost_program_options -lrt -lpthread || exit 9
cd "$t" && timeout 60 ./demo
'''
PRE = '''#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/kernel/Scheduler.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/events/EventSet.hpp"
#include <iostream>
#include <functional>
static int bad = 0;
#define CHECK(c) do { if(!(c)) { std::cerr << "FAILED line " << __LINE__ << ": " #c "\\n"; bad = 1; } } while(0)
template<class Fn> bool throws(Fn f) { try { f(); } catch(const std::exception &) { return true; } return false; }
struct Env {
    sparta::Scheduler s; sparta::ClockManager cm{&s}; sparta::RootTreeNode rtn; sparta::Clock::Handle root;
    sparta::StatisticSet ss{&rtn};
    Env() { root = cm.makeRoot(&rtn, "root"); cm.normalize(); rtn.setClock(root.get()); }
    ~Env() { rtn.enterTeardown(); }
};
'''


def plant(id, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, a, b in edits:
        p = f if f.startswith('/') else (('/repo/sparta/' + f) if f.startswith('src/') else S + f)
        s = files.get(p) or [open(p).read()] * 2
        assert s[1].count(a) == 1, (f, a, s[1].count(a))
        files[p] = [s[0], s[1].replace(a, b)]
    for p, (x, y) in files.items():
        r = p[len('/repo/'):]
        out += ''.join(difflib.unified_diff(x.splitlines(1), y.splitlines(1), 'a/' + r, 'b/' + r))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(PRE + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
