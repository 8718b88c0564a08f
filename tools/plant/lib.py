import os, subprocess, json, shutil, sys, hashlib
REPO='/repo'
BC='include/lru/internal/base-cache.hpp'; TC='include/lru/timed-cache.hpp'; CA='include/lru/cache.hpp'
LA='include/lru/internal/last-accessed.hpp'; SM='include/lru/internal/statistics-mutator.hpp'; CM='include/lru/internal/callback-manager.hpp'
OI='include/lru/internal/base-ordered-iterator.hpp'; UI='include/lru/internal/base-unordered-iterator.hpp'; BI='include/lru/internal/base-iterator.hpp'
OP='include/lru/internal/optional.hpp'; ST='include/lru/statistics.hpp'; KS='include/lru/key-statistics.hpp'; IN='include/lru/internal/information.hpp'
TI='include/lru/internal/timed-information.hpp'; UT='include/lru/internal/utility.hpp'; WR='include/lru/wrap.hpp'; HA='include/lru/internal/hash.hpp'
EN='include/lru/entry.hpp'; DE='include/lru/internal/definitions.hpp'; IR='include/lru/insertion-result.hpp'
HEAD='''#include <lru/lru.hpp>
#include <chrono>
#include <cstdio>
#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <string>
#include <vector>
// A clock that only moves when told to.
static int64_t now_ns = 1000000000, wall_ns = 1000000000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(now_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(wall_ns)); }
} } }
static void pass(int64_t ms) { now_ns += ms * 1000000; wall_ns += ms * 1000000; }
#define CHECK(x) do { if (!(x)) { printf("line %d: %s\\n", __LINE__, #x); return 1; } } while (0)
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
using namespace std::chrono;
typedef std::string S;
template <class C> static S keys(C& c) { S s; for (auto i = c.ordered_cbegin(); i != c.ordered_cend(); ++i) { s += i->key(); s += ' '; } return s; }
template <class C> static S ikeys(C& c) { S s; for (auto i = c.ordered_cbegin(); i != c.ordered_cend(); ++i) { s += std::to_string(i->key()); s += ' '; } return s; }
'''
BUGS=[]
def bug(id, prop, edits, needs, what, demo, pre='', flags='-std=c++14'):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,demo=demo,pre=pre,flags=flags))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
BASE=set()
def orig_lines(f):
    r=subprocess.run(['git','-C',REPO,'show','d189115:'+f],stdout=subprocess.PIPE)
    return set(l.strip() for l in r.stdout.decode().splitlines())
def make(b, out):
    """writes the seeded dir; returns error or None"""
    d=os.path.join(out,b['id']); os.makedirs(d,exist_ok=True)
    W='/tmp/seed/w-'+b['id']
    shutil.rmtree(W,ignore_errors=True)
    sh('cp -a /repo %s'%W)
    try:
        touched=False
        for (f,old,new) in b['edits']:
            p=os.path.join(W,f); s=open(p).read()
            if s.count(old)!=1: return 'edit matches %d times: %s'%(s.count(old),old[:60])
            open(p,'w').write(s.replace(old,new))
            o=orig_lines(f)
            rem=[l.strip() for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            if any(l in o for l in rem) or not rem: touched=True
        if not touched: return 'no original line changed'
        diff=sh('git -C %s diff'%W).stdout.decode()
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.cpp','w').write(HEAD+b['pre']+'int main() {\n'+b['demo'].strip('\n')+'\n  puts("ok");\n  return 0;\n}\n')
        open(d+'/demo.sh','w').write('''#!/bin/bash
# Run with the current directory in the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ %s -w -g -Iinclude "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''%b['flags'])
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['what']},open(d+'/meta.json','w'),indent=1)
        r=sh('cd /repo && bash %s/demo.sh'%d)
        if r.returncode!=0: return 'demo fails on the clean tree: '+r.stdout.decode()[-600:]
        r=sh('cd %s && bash %s/demo.sh'%(W,d))
        if r.returncode==0: return 'demo passes with the patch'
        if r.returncode==2 and '17' not in b['flags']: return 'demo does not compile with the patch: '+r.stdout.decode()[-600:]
        b['demo_out']=r.stdout.decode()[-200:].strip()
        # tests: compile the repository's tests by hand (same flags as its build)
        r=sh('bash /tmp/seed/test.sh %s'%W)
        if r.returncode!=0: return 'tests: '+r.stdout.decode()[-800:]
        return None
    finally:
        shutil.rmtree(W,ignore_errors=True)
def check(b, out, tier='quick', props=None, seed=1):
    W='/tmp/seed/c-'+b['id']; shutil.rmtree(W,ignore_errors=True)
    sh('cp -a /repo %s; git -C %s apply %s/%s/patch.diff'%(W,W,out,b['id']))
    res={}
    for p in props or [b['prop']]:
        r=sh('cd %s && VERIF_REPO=%s VERIF_TIER=%s VERIF_SEED=%d python3 check.py %s'%(os.environ.get('VDIR','/tmp/vf'),W,tier,seed,p))
        res[p]=(r.returncode, r.stdout.decode())
    shutil.rmtree(W,ignore_errors=True)
    return res
