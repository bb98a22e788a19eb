ID='implied-distance-stale'; PROP='P09'; FILE='src/Model.cpp'
EDITS=[('''				bool changed = ((minEstimatedCosts[n->id] != cCosts)
						|| (minImpliedDistance[n->id] != cDist));''','''				bool changed = ((minEstimatedCosts[n->id] != cCosts)
						|| ((minImpliedDistance[n->id] != cDist) && (cCosts == INT_MAX)));''')]
NEEDS='a task that first gets a longer and later, at the same cost, a shorter refinement'; BREAKS='the tasks above it keep the longer distance'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=0; p.acts={a}; p.nt=4; p.init=3; auto M=[&](int t,VI s){Met m; m.task=t; m.sub=s; p.mets.push_back(m);}; M(1,{0,0,0,0,0}); M(1,{2}); M(2,{0}); M(3,{1}); begin("two refinements");
 Model *m=load(p); m->calcMinimalImpliedX(); check(m->minImpliedDistance[1]==3&&m->minImpliedDistance[2]==2,"distances below"); check(m->minImpliedDistance[3]==4,cat("distance of the top task",m->minImpliedDistance[3])); }
'''
#---
ID='implied-free-method'; PROP='P09'; FILE='src/Model.cpp'
EDITS=[('				for (int i = 0; i < this->numMethodsForTask[n->id]; i++) {\n					int m = this->taskToMethods[n->id][i];\n                    minEst','				for (int i = 0; i < this->numMethodsForTask[n->id] && minEstimatedCosts[n->id] > 0; i++) {\n					int m = this->taskToMethods[n->id][i];\n                    minEst')]
NEEDS='a task whose first free method is longer than a later one'; BREAKS='the implied distance of the task is that of the first free method'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=0; p.acts={a}; p.nt=2; p.init=1; auto M=[&](int t,VI s){Met m; m.task=t; m.sub=s; p.mets.push_back(m);}; M(1,{0,0}); M(1,{0}); begin("two free methods");
 Model *m=load(p); m->calcMinimalImpliedX(); check(m->minEstimatedCosts[1]==0&&m->minImpliedDistance[1]==2,cat("distance",m->minImpliedDistance[1])); }
'''
#---
ID='intlist-negated-zero'; PROP='P04'; FILE='src/Model.cpp'
EDITS=[('if (x < 0) x++; // convert','if (x < -2) x++; // convert')]
NEEDS='an invariant that contains the negated fact 0'; BREAKS='it is read as the negation of fact 1'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=2; p.vars={{0,0},{1,1}}; Act a; a.cost=0; p.acts={a}; p.nt=2; p.init=1; Met m; m.task=1; m.sub={0}; p.mets={m}; begin("list"); Model *M=load(p); int n; int *r=M->readIntList("3 -3 -2 0 -1",n); check(n==4&&r[0]==3&&r[1]==-2&&r[2]==-1&&r[3]==0,str(VI(r,r+n))); }
'''
#---
ID='condeffect-same-target'; PROP='P04'; FILE='src/Model.cpp'
EDITS=[('			else\n				conds.push_back(make_pair(c, x));','			else if (conds.empty() || conds.back().second != x || conds.back().first[0] != c[0])\n				conds.push_back(make_pair(c, x));')]
NEEDS='two conditional effects in a row on the same fact whose conditions start with the same fact'; BREAKS='the second one is dropped'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=2; p.vars={{0,0},{1,1}}; Act a; a.cost=0; p.acts={a}; p.nt=2; p.init=1; Met m; m.task=1; m.sub={0}; p.mets={m}; begin("conditional effects"); Model *M=load(p); int x,y; int *z; M->readConditionalIntList("2 4 5 7 2 4 6 7 1 4 8 0 3 -1",x,y,z); check(x==1&&y==3,cat("counts",x,y)); }
'''
