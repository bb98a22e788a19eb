ID='scc-cross-edge'; PROP='P08'; FILE='src/sat/disabling_graph.cpp'
EDITS=[('		} else if (containedS[v2]) {','		} else {')]
NEEDS='an edge to a component that is already finished'; BREAKS='the vertex is merged into a component of vertices that do not reach it'
SRCS='MODEL sat/disabling_graph.cpp Invariants.cpp'
DEMO='''#include "model.h"
#include "sat/disabling_graph.h"
using namespace hm;
void harness(){ begin("cross edges"); std::vector<std::unordered_set<int>> a(8); a[0]={1,2}; a[2]={1,3,4,5,6}; a[3]={1}; a[7]={0}; graph g(a); g.calcSCCs(); check(g.numSCCs==8,"acyclic graph with 8 vertices has 8 components"); }
'''
#---
ID='scc-lowlink-dfs'; PROP='P08'; FILE='src/Model.cpp'
EDITS=[("""					if (lowlink[v] > lowlink[v2]) {
						lowlink[v] = lowlink[v2];""","""					if (lowlink[v] > dfsI[v2]) {
						lowlink[v] = dfsI[v2];""")]
NEEDS='tasks that are recursive through a cycle of at least three'; BREAKS='the cycle is split into several components'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; p.acts={a}; p.nt=4; p.init=1; auto M=[&](int t,VI s){ Met m; m.task=t; m.sub=s; p.mets.push_back(m); }; M(1,{2}); M(2,{3}); M(3,{1,0}); M(3,{0}); begin("cycle"); Model *m=load(p); m->calcSCCs(); check(m->numSCCs==2&&m->taskToSCC[1]==m->taskToSCC[2]&&m->taskToSCC[2]==m->taskToSCC[3],"components"); }
'''
#---
ID='scc-reach-start'; PROP='P08'; FILE='src/sat/disabling_graph.cpp'
EDITS=[("""			int y = adj[x][j];
			if (!visi[y]){
				if (toSet.count(y)) {""","""			int y = adj[x][j];
			if (!visi[y] && adjSize[y]){
				if (toSet.count(y)) {""")]
NEEDS='a target without outgoing edges'; BREAKS='a path that ends there is not found'
SRCS='MODEL sat/disabling_graph.cpp Invariants.cpp'
DEMO='''#include "model.h"
#include "sat/disabling_graph.h"
using namespace hm;
void harness(){ begin("sink"); std::vector<std::unordered_set<int>> a(4); a[0]={1}; a[1]={2}; graph g(a); std::vector<int> f={0}, t={2}, n={3}; check(g.can_reach_any_of(f,t),"path 0-1-2"); check(!g.can_reach_any_of(f,n),"no path to 3"); }
'''
