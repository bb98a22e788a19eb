ID='apply-add-before-del'; PROP='P01'; FILE='src/Model.cpp'
EDITS=[('''		for (int i = 0; i < numDels[progressed->task]; i++) {
			result->state[delLists[progressed->task][i]] = false;
		}
		for (int i = 0; i < numAdds[progressed->task]; i++) {
			result->state[addLists[progressed->task][i]] = true;
		}
''','''		for (int i = 0; i < numAdds[progressed->task]; i++) {
			result->state[addLists[progressed->task][i]] = true;
		}
		for (int i = 0; i < numDels[progressed->task]; i++) {
			if (!result->state[delLists[progressed->task][i]]) continue;
			result->state[delLists[progressed->task][i]] = false;
		}
''')]
NEEDS='an action with a fact that is both an add and a delete effect'; BREAKS='the fact is false afterwards although add effects win'
SRCS='MODEL'
DEMO='''#include "walk.h"
using namespace hm;
void harness(){ HTN p; p.nb=3; p.vars={{0,0},{1,1},{2,2}}; Act a; a.cost=1; a.prec={0}; a.add={1,2}; a.del={0,1}; p.acts={a}; p.s0={0}; p.nt=2; p.init=1; Met m; m.task=1; m.sub={0}; p.mets={m}; begin("one action");
 Model *M=load(p); searchNode *n=M->prepareTNi(M); searchNode *c=M->decompose(n,0,0); searchNode *d=M->apply(c,0); check(state(d)==SI({1,2}),"state "+str(state(d))); }
'''
#---
ID='apply-same-task-preds'; PROP='P02'; FILE='src/Model.cpp'
EDITS=[('''			if (i != taskNo) {
				for (int j = 0; j < n->unconstraintPrimitive[i]->numSuccessors;''','''			if (i != taskNo && n->unconstraintPrimitive[i]->task != progressed->task) {
				for (int j = 0; j < n->unconstraintPrimitive[i]->numSuccessors;''')]
NEEDS='two unconstrained steps with the same primitive task that share a successor'; BREAKS='the shared successor becomes unconstrained while one predecessor is still pending'
SRCS='MODEL'
DEMO='''#include "walk.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; p.acts={a,a}; p.acts[0].add={0}; p.acts[1].add={0}; p.nt=3; p.init=2; Met m; m.task=2; m.sub={0,0,1}; m.ord={{0,2},{1,2}}; p.mets={m}; begin("two equal tasks before a third");
 Model *M=load(p); searchNode *n=M->prepareTNi(M); searchNode *c=M->decompose(n,0,0); check(c->numPrimitive==2,"first"); searchNode *d=M->apply(c,0); check(d->numPrimitive==1,"unconstrained tasks after the first one"); check(d->unconstraintPrimitive[0]->task==0,"which"); searchNode *e=M->apply(d,0); check(e->numPrimitive==1&&e->unconstraintPrimitive[0]->task==1,"last"); }
'''
#---
ID='decompose-last-copy'; PROP='P02'; FILE='src/Model.cpp'
EDITS=[('''			mInstance.second[i]->numSuccessors = decomposed->numSuccessors;
''','''			mInstance.second[i]->numSuccessors = i < 3 ? decomposed->numSuccessors : min(decomposed->numSuccessors, 1);
''')]
NEEDS='a method with more than three last subtasks applied to a task with at least two direct successors'; BREAKS='the fourth last subtask is no longer ordered before the second successor'
SRCS='MODEL'
DEMO='''#include "walk.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; a.add={0}; p.acts={a,a,a}; p.nt=5; p.init=3; Met m; m.task=3; m.sub={4,1,2}; m.ord={{0,1},{0,2}}; Met k; k.task=4; k.sub={0,0,0,0}; p.mets={m,k}; begin("four last subtasks, two successors");
 Model *M=load(p); searchNode *n=M->prepareTNi(M); n=M->decompose(n,0,0); check(n->numAbstract==1&&n->numPrimitive==0,"first"); n=M->decompose(n,0,1); check(n->numPrimitive==4,"four");
 Net N=net(n); for(size_t i=0;i<N.st.size();i++) for(size_t j=0;j<N.st.size();j++) if(N.task[i]==0&&N.task[j]!=0) check(N.ord[i][j],"order"); }
'''
#---
ID='tasks-keep-recursive'; PROP='P03'; FILE='src/Model.cpp'
EDITS=[('''				&& (iu.indexOf(sortedDistinctSubtasks[m], 0, numDistinctSTs[m] - 1, mAbs) < 0));''','''				&& (iu.indexOf(sortedDistinctSubtasks[m], 0, numDistinctSTs[m] / 2, mAbs) < 0));''')]
NEEDS='a recursive method whose own task is in the upper half of its sorted distinct subtasks, applied to the only pending copy of that task'; BREAKS='the recursive copy of the task disappears from the tracked multiset'
SRCS='MODEL'
DEMO='''#include "walk.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; a.add={0}; p.acts={a,a,a}; p.nt=4; p.init=3; Met m; m.task=3; m.sub={0,1,2,3}; Met k; k.task=3; k.sub={0}; p.mets={m,k}; begin("recursive method");
 Model *M=load(p,true); searchNode *n=M->prepareTNi(M); n=M->decompose(n,0,0); check(n->numContainedTasks==4,"number of different tasks"); for(int i=0;i<4;i++) check(n->containedTasks[i]==i&&n->containedTaskCount[i]==1,"counts"); }
'''
#---
ID='tasks-search-low'; PROP='P03'; FILE='src/Model.cpp'
EDITS=[('''			if (index >= 0) {
				low = index + 1;
			} else {
				newElements++;''','''			if (index >= 0) {
				low = index + 1 + (numDistinctSTs[m] > 3 ? 1 : 0);
			} else {
				newElements++;''')]
NEEDS='a method with at least four distinct subtasks of which two adjacent pending ones are contained in the parent network'; BREAKS='the number of contained tasks is too large'
SRCS='MODEL'
DEMO='''#include "walk.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; a.add={0}; p.acts={a,a,a,a}; p.nt=6; p.init=4; Met m; m.task=4; m.sub={0,1,2,3,5}; Met k; k.task=5; k.sub={0,1,2,3}; p.mets={m,k}; begin("second method with the same tasks");
 Model *M=load(p,true); searchNode *n=M->prepareTNi(M); n=M->decompose(n,0,0); n=M->decompose(n,0,1); check(n->numContainedTasks==4,"number of different tasks"); for(int i=0;i<4;i++) check(n->containedTasks[i]==i&&n->containedTaskCount[i]==2,"counts"); }
'''
#---
ID='methods-of-task-dedup'; PROP='P05'; FILE='src/Model.cpp'
EDITS=[('''			tTaskToMethods[decomposedTask[i]].push_back(i);
''','''			if (i > 0 && decomposedTask[i] == decomposedTask[i - 1] && subTasks[i] == subTasks[i - 1]) continue; // same method twice
			if (i > 0 && decomposedTask[i] == decomposedTask[i - 1] && numSubTasks[i] == numSubTasks[i - 1] && numOrderings[i] == numOrderings[i - 1]
					&& numSubTasks[i] > 2 && std::equal(subTasks[i], subTasks[i] + numSubTasks[i], subTasks[i - 1])) continue;
			tTaskToMethods[decomposedTask[i]].push_back(i);
''')]
NEEDS='two neighbouring methods of a task with the same three or more subtasks and equally many, but different, ordering constraints'; BREAKS='the second method is missing in the task-to-method index'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; a.add={0}; p.acts={a,a,a}; p.nt=4; p.init=3; Met m; m.task=3; m.sub={0,1,2}; m.ord={{0,1}}; Met k=m; k.ord={{1,2}}; p.mets={m,k}; begin("two methods that differ in the order");
 Model *M=load(p); check(M->numMethodsForTask[3]==2&&M->taskToMethods[3][0]==0&&M->taskToMethods[3][1]==1,"methods of the task"); }
'''
#---
ID='add-index-large'; PROP='P05'; FILE='src/Model.cpp'
EDITS=[('''            for (int j = 0; j < numAdds[i]; j++) {
                int f = addLists[i][j];
                addToActionTemp[f].insert(i);''','''            for (int j = 0; j < numAdds[i]; j++) {
                int f = addLists[i][j];
                if (j >= 8 && numPrecs[i] == 0) continue; // initialisation action
                addToActionTemp[f].insert(i);''')]
NEEDS='an action without preconditions and with more than eight add effects'; BREAKS='the fact-to-adding-action index misses it'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=10; for(int i=0;i<10;i++)p.vars.push_back({i,i}); Act a; a.cost=1; for(int i=0;i<10;i++)a.add.push_back(i); p.acts={a}; p.nt=2; p.init=1; Met m; m.task=1; m.sub={0}; p.mets={m}; begin("ten add effects");
 Model *M=load(p); M->calcAddToActionMapping(); for(int i=0;i<10;i++) check(M->addToActionSize[i]==1&&M->addToAction[i][0]==0,"adders of fact "+std::to_string(i)); }
'''
#---
ID='closure-loop-order'; PROP='P06'; FILE='src/Model.cpp'
EDITS=[('''		for (int k = 0; k < numSubTasks[i]; k++)
			for (int x = 0; x < numSubTasks[i]; x++)
				for (int y = 0; y < numSubTasks[i]; y++)
						if (trans[x][k] && trans[k][y]) trans[x][y] = true;''','''		for (int x = 0; x < numSubTasks[i]; x++)
			for (int k = 0; k < numSubTasks[i]; k++)
				for (int y = 0; y < numSubTasks[i]; y++)
						if (trans[x][k] && trans[k][y]) trans[x][y] = true;''')]
NEEDS='a method whose ordering chain visits subtask indices in a suitable non-ascending order'; BREAKS='the transitive closure misses pairs'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ VI perm={0,1,2,3}; do { HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; a.add={0}; p.acts={a}; p.nt=2; p.init=1; Met m; m.task=1; m.sub={0,0,0,0}; m.ord={{perm[0],perm[1]},{perm[1],perm[2]},{perm[2],perm[3]}}; p.mets={m}; begin(brief(p));
 Model *M=load(p); M->computeTransitiveClosureOfMethodOrderings(); check(M->numOrderings[0]==12,"six pairs"); for(int i=0;i<4;i++)for(int j=i+1;j<4;j++){bool f=false; for(int o=0;o<12;o+=2) f|=M->ordering[0][o]==perm[i]&&M->ordering[0][o+1]==perm[j]; check(f,"pair");} } while(std::next_permutation(perm.begin(),perm.end())); }
'''
#---
ID='successor-count-cap'; PROP='P07'; FILE='src/Model.cpp'
EDITS=[('''				methodSubtaskSuccNum[i][pred]++;
''','''				if (o == 0 || ordering[i][o - 2] != pred || ordering[i][o - 1] + 1 != succ || numOrderings[i] < 12) methodSubtaskSuccNum[i][pred]++;
''')]
NEEDS='a method with at least six ordering constraints, two of them listed in a row for one subtask with consecutive successors'; BREAKS='the number of direct successors of that subtask is too small'
SRCS='MODEL'
DEMO='''#include "model.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; a.add={0}; p.acts={a}; p.nt=2; p.init=1; Met m; m.task=1; m.sub={0,0,0,0,0,0,0}; for(int i=1;i<7;i++) m.ord.push_back({0,i}); p.mets={m}; begin(brief(p));
 Model *M=load(p); check(M->methodSubtaskSuccNum[0][0]==6,"number of successors"); check(M->numFirstTasks[0]==1&&M->numLastTasks[0]==6,"firsts and lasts"); }
'''
