ID='rc-duplicate-subtasks'; PROP='P20'; FILE='src/heuristics/rcHeuristics/RCModelFactory.cpp'
EDITS=[('int st = htn->sortedDistinctSubtasks[im][ist];','int st = htn->subTasks[im][ist];')]
NEEDS='a method with the same subtask twice'; BREAKS='a subtask of the method is missing from the preconditions of its action'
SRCS='MODEL heuristics/rcHeuristics/RCModelFactory.cpp'
DEMO='''#include "model.h"
#include "heuristics/rcHeuristics/RCModelFactory.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; p.acts={a,a}; p.nt=3; p.init=2; Met m; m.task=2; m.sub={1,1,0}; p.mets={m}; begin("duplicate subtask"); Model *M=load(p); progression::RCModelFactory f(M); Model *r=f.getRCmodelSTRIPS(1,1);
 SI s(r->precLists[2],r->precLists[2]+r->numPrecs[2]); check(s==SI({f.t2bur(0),f.t2bur(1)}),"preconditions of the method"); }
'''
#---
ID='rc-free-actions'; PROP='P20'; FILE='src/heuristics/rcHeuristics/RCModelFactory.cpp'
EDITS=[('		if (costRegularActions == 0)','		if (costRegularActions * htn->actionCosts[i] == 0)')]
NEEDS='an action that costs nothing, and a configured cost of actions'; BREAKS='it keeps cost 0 instead of the configured cost'
SRCS='MODEL heuristics/rcHeuristics/RCModelFactory.cpp'
DEMO='''#include "model.h"
#include "heuristics/rcHeuristics/RCModelFactory.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=0; p.acts={a}; p.nt=2; p.init=1; Met m; m.task=1; m.sub={0}; p.mets={m}; begin("free action"); Model *M=load(p); progression::RCModelFactory f(M); Model *r=f.getRCmodelSTRIPS(1,1); check(r->actionCosts[0]==1&&r->actionCosts[1]==1,"costs"); r=f.getRCmodelSTRIPS(4,0); check(r->actionCosts[0]==0&&r->actionCosts[1]==4,"own costs"); }
'''
