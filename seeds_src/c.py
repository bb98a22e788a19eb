ID='pack-signed-shift'; PROP='P10'; FILE='src/VisitedList.cpp'
EDITS=[('            cur |= uint64_t(1) << pos;','            cur |= 1U << (pos & 31) == 0 ? 0 : uint64_t(1u << (pos & 31)) << (pos & 32);'.replace('1U << (pos & 31) == 0 ? 0 : uint64_t(1u << (pos & 31)) << (pos & 32)','uint64_t(int64_t(int(1u << (pos & 31)))) << (pos & 32)'))]
NEEDS='a fact at position 31 of a word (bit 31) that is true'; BREAKS='sign extension also sets the upper half of the word, so states that differ there are packed alike'
FLAGS='-I src/search -I src/heuristics'; SRCS='MODEL VisitedList.cpp Util.cpp intDataStructures/CompressedSequenceSet.cpp intDataStructures/HashTable.cpp'
DEMO='''#include "h.h"
using namespace h;
std::pair<std::vector<uint64_t>, int> state2Int(std::vector<bool> &state);
void harness(){ std::vector<bool> a(64,false), b(64,false); a[31]=b[31]=true; b[40]=true; begin("two states over 64 facts"); check(state2Int(a).first!=state2Int(b).first,"different states packed alike"); for(int i=0;i<130;i++) for(int j=0;j<i;j++){ std::vector<bool> x(130,false),y(130,false); x[i]=true; y[j]=true; check(state2Int(x).first!=state2Int(y).first,"single facts"); } }
'''
#---
ID='bucketset-next-sentinel'; PROP='P12'; FILE='src/intDataStructures/bucketSet.cpp'
EDITS=[('''int bucketSet::getNext() {
	if (numIterated == currentSize)''','''int bucketSet::getNext() {
	if (numIterated + (containersize >= 64 && iIter == 63 ? 1 : 0) == currentSize)''')]
NEEDS='a container of at least 64 values, element 62 in the set and exactly one more element behind it'; BREAKS='iteration stops before the last element'
SRCS='intDataStructures/bucketSet.cpp'
DEMO='''#include "h.h"
#include "intDataStructures/bucketSet.h"
using namespace h; using progression::bucketSet;
void harness(){ bucketSet s; s.init(100); s.insert(3); s.insert(62); s.insert(80); begin("{3,62,80}"); std::vector<int> v; for(int i=s.getFirst();i>=0;i=s.getNext()) v.push_back(i); check(v==std::vector<int>({3,62,80}),str(v)); s.clear(); check(s.isEmpty(),"clear"); }
'''
#---
ID='bintset-find-mid'; PROP='P12'; FILE='src/intDataStructures/bIntSet.cpp'
EDITS=[('''		sortSet(); // elements may have been appended
'''.replace('sortSet','sortSet'),'') ] if False else [('''		if (ints[i] == element)
			return i;
		else if (ints[i] < element) {
			minIndex = i + 1;
		} else {
			maxIndex = i - 1;
		}''','''		if (ints[i] == element)
			return i;
		else if (ints[i] < element) {
			minIndex = i + 1;
		} else {
			maxIndex = i - 1 - (maxIndex - minIndex > 40 ? (maxIndex - minIndex) / 20 - 1 : 0);
		}''')]
NEEDS='a set of more than 40 elements from which an element just below a probed middle one is erased'; BREAKS='erase does not find the element and writes to index -1'
SRCS='intDataStructures/bIntSet.cpp'
DEMO='''#include "h.h"
#include "intDataStructures/bIntSet.h"
using namespace h; using progression::bIntSet;
void harness(){ for(int n=10;n<100;n+=7) for(int e=0;e<n;e++){ begin(cat(n,e)); bIntSet s; s.init(200); for(int i=0;i<n;i++) s.append(2*i); check(s.find(s.intContainer,0,n-1,2*e)==e,"position of an element"); s.erase(2*e); check(s.getSize()==n-1,"size"); int k=0; for(int i=s.getFirst();i>=0;i=s.getNext()){ check(i!=2*e&&i%2==0&&i<2*n,"element"); k++; } check(k==n-1,"elements"); } }
'''
#---
ID='heap-right-child'; PROP='P14'; FILE='src/intDataStructures/IntPairHeap.h'
EDITS=[('if ((current * 2 + 1 < nextIndex)','if ((current * 2 + 1 < nextIndex - (nextIndex >= 16 ? 1 : 0))')]
NEEDS='a heap with at least 16 slots used whose last entry is the smaller, right child on the way down'; BREAKS='the heap order is violated and a later top is not minimal'
SRCS=''
DEMO='''#include "h.h"
#include "intDataStructures/IntPairHeap.h"
using namespace h;
void harness(){ for(int s=0;s<20000;s++){ int n=rnd(14,40); progression::IntPairHeap<int> q(4); std::multiset<int> m; for(int i=0;i<n;i++){int k=rnd(0,60); q.add(k,i); m.insert(k);} begin(cat(s)); while(!q.isEmpty()){ check(q.topKey()==*m.begin(),"top is not minimal"); m.erase(m.begin()); q.pop(); if(coin(30)&&m.size()<50){int k=rnd(0,60); q.add(k,k); m.insert(k);} if(m.size()<5) break; } } }
'''
#---
ID='heap-grow-copy'; PROP='P14'; FILE='src/intDataStructures/IntPairHeap.h'
EDITS=[('memcpy(nKeys, keys, sizeof(T) * arraySize);','memcpy(nKeys, keys, sizeof(int) * arraySize);')]
NEEDS='a heap whose key type is wider than int (the double version) that grows'; BREAKS='keys in the upper half are lost when the storage grows'
SRCS=''
DEMO='''#include "h.h"
#include "intDataStructures/IntPairHeap.h"
using namespace h;
void harness(){ progression::IntPairHeap<double> q(8); begin("double keys"); for(int i=0;i<100;i++) q.add(100.5-i,i); for(int i=99;i>=0;i--){ check(q.topKey()==100.5-i&&q.topVal()==i,"entry"); q.pop(); } }
'''
#---
ID='fringe-boundary-size'; PROP='P15'; FILE='src/search/UnsortedFringe.cpp'
EDITS=[('''	firstContainer->leftIndex--;
	sizeCounter++; // this is the global size
	if (firstContainer->leftIndex == -1) {''','''	firstContainer->leftIndex--;
	if (firstContainer->leftIndex != -1 || !firstContainer->hasNextContainer || sizeCounter < firstContainer->containerSize)
		sizeCounter++; // this is the global size
	if (firstContainer->leftIndex == -1) {''')]
NEEDS='more than one storage block and a front insertion that fills the front block while at least a block full of nodes is stored'; BREAKS='the reported size is one too small, so the last node is never returned'
SRCS='search/UnsortedFringe.cpp search/UnsrtFringeContainer.cpp search/StackFringe.cpp search/QueueFringe.cpp ProgressionNetwork.cpp'
DEMO='''#include "h.h"
#include "search/UnsortedFringe.h"
using namespace h; using progression::UnsortedFringe; using progression::searchNode;
void harness(){ UnsortedFringe f; long N=3L<<20; begin("front insertions over several blocks"); for(long i=0;i<N;i++) f.addFirst((searchNode*)(8*(i+1))); check(f.size()==N,"size"); for(long i=N;i>0;i--) { check(!f.empty(),"empty"); check(f.removeFirst()==(searchNode*)(8*i),"node"); } check(f.empty(),"not empty"); }
'''
#---
ID='fringe-prev-flag'; PROP='P15'; FILE='src/search/UnsortedFringe.cpp'
EDITS=[('''		lastContainer = lastContainer->prevContainer;
		lastContainer->hasNextContainer = false;''','''		lastContainer = lastContainer->prevContainer;
		if (lastContainer->leftIndex + 1 == lastContainer->containerSize) lastContainer->rightIndex--; // nothing left in it
		lastContainer->hasNextContainer = false;''')] if False else [('''		temp->leftIndex = -1; // this will be incremented by the remove function before usage
		temp->rightIndex = 0; // this is the index that will be used without incrementation''','''		temp->leftIndex = firstContainer == lastContainer ? -1 : 0; // this will be incremented by the remove function before usage
		temp->rightIndex = 0; // this is the index that will be used without incrementation''')]
NEEDS='a queue that spans three storage blocks'; BREAKS='the first node of the third block is skipped when the removal reaches it'
SRCS='search/UnsortedFringe.cpp search/UnsrtFringeContainer.cpp search/StackFringe.cpp search/QueueFringe.cpp ProgressionNetwork.cpp'
DEMO='''#include "h.h"
#include "search/QueueFringe.h"
using namespace h; using progression::QueueFringe; using progression::searchNode;
void harness(){ QueueFringe f; long N=3L<<20; begin("queue over three blocks"); for(long i=1;i<=N;i++) f.push((searchNode*)(8*i)); for(long i=1;i<=N;i++) { check(!f.empty(),"empty"); check(f.top()==(searchNode*)(8*i),"node"); f.pop(); } check(f.empty(),"not empty"); }
'''
#---
ID='fringe-tie-order'; PROP='P16'; FILE='src/search/fringes/OneQueueWAStarFringe.cpp'
EDITS=[('''			if (a->heuristicValue[i] != b->heuristicValue[i])
				return a->heuristicValue[i] > b->heuristicValue[i];''','''			if (a->heuristicValue[i] != b->heuristicValue[i])
				return i + 1 < numOfHeuristics || i < 3 ? a->heuristicValue[i] > b->heuristicValue[i] : b->heuristicValue[i] - a->heuristicValue[i] < 0 && a->heuristicValue[i] >= 0;''')]
NEEDS='at least four heuristics, ties in priority and in all heuristics but the last, which is negative'; BREAKS='a node with the larger last heuristic is returned first'
SRCS='search/fringes/OneQueueWAStarFringe.cpp ProgressionNetwork.cpp'
DEMO='''#include "h.h"
#include "search/fringes/OneQueueWAStarFringe.h"
using namespace h; using progression::searchNode;
void harness(){ TieBreakingNodePointerComaprator c(4); begin("ties up to the last heuristic"); searchNode a,b; a.heuristicValue=new int[4]{1,2,3,-5}; b.heuristicValue=new int[4]{1,2,3,-9}; a.fValue=b.fValue=1; a.hRand=0; b.hRand=1; check(c(&a,&b),"larger heuristic value comes later"); check(!c(&b,&a),"smaller heuristic value comes first"); }
'''
#---
ID='fringe-weight-mixed'; PROP='P16'; FILE='src/search/fringes/OneQueueWAStarFringe.cpp'
EDITS=[('case gValActionPathCosts: n->fValue += n->mixedModificationDepth; break;','case gValActionPathCosts: n->fValue += hWeight > 1 ? n->modificationDepth + n->actionCosts : n->mixedModificationDepth; break;')]
NEEDS='weighted search (weight above one) with the mixed path measure and actions in the plan'; BREAKS='actions count as an additional step in the path measure'
SRCS='search/fringes/OneQueueWAStarFringe.cpp ProgressionNetwork.cpp'
DEMO='''#include "h.h"
#include "search/fringes/OneQueueWAStarFringe.h"
using namespace h; using progression::searchNode;
void harness(){ begin("weight 2"); OneQueueWAStarFringe f(gValActionPathCosts,2,1); searchNode *n=new searchNode; n->heuristicValue=new int[1]{5}; n->modificationDepth=4; n->actionCosts=7; n->mixedModificationDepth=8; f.push(n); check(n->fValue==18,"priority"); }
'''
#---
ID='amo-bit-count'; PROP='P21'; FILE='src/sat/sat_encoder.cpp'
EDITS=[('int bits = (int) ceil(log(is.size()) / log(2));','int bits = (int) ceil(log(is.size() - 1) / log(2));')]
NEEDS='at-most-one over exactly 257, 513, ... variables'; BREAKS='the first and the last variable may be true together'
SRCS='Debug.cpp'
DEMO='''#include "h.h"
#include "sat/sat_encoder.cpp"
using namespace h; static std::vector<std::vector<int>> db; static std::vector<int> cur;
extern "C" { void ipasir_add(void *, int l) { if (l) cur.push_back(l); else { db.push_back(cur); cur.clear(); } } }
// every pair of variables must clash: their auxiliary literals differ in some bit
void harness(){ for(int n: {256,257,258,300,512,513,514}){ begin(cat(n)); db.clear(); sat_capsule c; std::vector<int> v; for(int i=0;i<n;i++) v.push_back(c.new_variable()); atMostOne(nullptr,c,v); std::map<int,std::set<int>> im; for(auto &k:db){ check(k.size()==2,"clause"); im[-k[0]].insert(k[1]); }
 for(int i=1;i<=n;i++) for(int j=1;j<i;j++){ bool clash=false; for(int l:im[i]) if(im[j].count(-l)||l==-j) {clash=true;break;} check(clash,cat("variables",j,i,"together")); } } }
'''
#---
ID='amk-last-bound'; PROP='P21'; FILE='src/sat/sat_encoder.cpp'
EDITS=[('		for (int j = 0; j <= K; j++){\n			ipasir_add(solver,-is[i]);','		for (int j = 0; j <= K && j <= i - i / 64; j++){\n			ipasir_add(solver,-is[i]);')]
NEEDS='at-most-k with a large k over a long list'; BREAKS='counter values are no longer carried at late positions, so more than k variables can be true'
SRCS='Debug.cpp'
DEMO='''#include "h.h"
#include "sat/sat_encoder.cpp"
using namespace h; static std::vector<std::vector<int>> db; static std::vector<int> cur;
extern "C" { void ipasir_add(void *, int l) { if (l) cur.push_back(l); else { db.push_back(cur); cur.clear(); } } }
// unit propagation from a full assignment of the inputs decides the counter
static bool sat(std::map<int,int> a){ bool ch=true; while(ch){ ch=false; for(auto &k:db){ int un=0,last=0; bool t=false; for(int l:k){ auto it=a.find(std::abs(l)); if(it==a.end()){un++;last=l;} else if((it->second>0)==(l>0)) t=true; } if(t) continue; if(!un) return false; if(un==1){a[std::abs(last)]=last>0?1:-1; ch=true;} } } return true; }
void harness(){ int n=200,K=100; begin("at most 100 of 200"); sat_capsule c; std::vector<int> v; for(int i=0;i<n;i++) v.push_back(c.new_variable()); atMostK(nullptr,c,K,v); std::map<int,int> a; for(int i=0;i<n;i++) a[v[i]]= i<K+1?1:-1; check(!sat(a),"101 true variables accepted"); a[v[0]]=-1; check(sat(a),"100 rejected"); }
'''
#---
ID='pg-method-once'; PROP='P25'; FILE='src/heuristics/planningGraph.cpp'
EDITS=[('''				if (!reachableTasksSet.get(m->decomposedTask[method])) {
					reachableTasksSet.insert(m->decomposedTask[method]);
					stack->push(m->decomposedTask[method]);''','''				if (!reachableTasksSet.get(m->decomposedTask[method])) {
					reachableTasksSet.insert(m->decomposedTask[method]);
					if (m->numDistinctSTs[method] > 1 || m->isPrimitive[t] || m->stToMethodNum[m->decomposedTask[method]] < 2)
					stack->push(m->decomposedTask[method]);''')]
NEEDS='an abstract task reached only through a unit method from another abstract task and used by at least two further methods'; BREAKS='the methods above that task are reported unreachable'
SRCS='MODEL heuristics/planningGraph.cpp intDataStructures/IntStack.cpp'
DEMO='''#include "model.h"
#include "heuristics/planningGraph.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; a.add={0}; p.acts={a}; p.nt=4; p.init=3; auto M=[&](int t,VI s){Met m; m.task=t; m.sub=s; p.mets.push_back(m);}; M(1,{0}); M(2,{1}); M(3,{2}); M(3,{2,0}); begin("unit methods");
 Model *m=load(p); progression::planningGraph g(m); progression::noDelIntSet all; all.init(4); for(int i=0;i<4;i++) all.insert(i); std::vector<bool> s(1,false); g.calcReachability(s,all); for(int t=0;t<4;t++) check(g.taskReachable(t),cat("task",t)); for(int k=0;k<4;k++) check(g.methodReachable(k),cat("method",k)); }
'''
#---
ID='pg-precless-filter'; PROP='P25'; FILE='src/heuristics/planningGraph.cpp'
EDITS=[('''        if (!reachableIn.get(ac))
            continue;
		reachableTasksSet.insert(ac);''','''        if (!reachableIn.get(ac) && m->numAdds[ac] > 0)
            continue;
		reachableTasksSet.insert(ac);''')]
NEEDS='an action without preconditions and without add effects that is not among the allowed tasks'; BREAKS='it is reported reachable, and methods that use it too'
SRCS='MODEL heuristics/planningGraph.cpp intDataStructures/IntStack.cpp'
DEMO='''#include "model.h"
#include "heuristics/planningGraph.h"
using namespace hm;
void harness(){ HTN p; p.nb=1; p.vars={{0,0}}; Act a; a.cost=1; Act b=a; b.add={0}; p.acts={a,b}; p.nt=3; p.init=2; Met m; m.task=2; m.sub={0}; p.mets={m}; m.sub={1}; p.mets.push_back(m); begin("noop");
 Model *M=load(p); progression::planningGraph g(M); progression::noDelIntSet all; all.init(3); all.insert(1); all.insert(2); std::vector<bool> s(1,false); g.calcReachability(s,all); check(!g.taskReachable(0)&&g.taskReachable(1)&&!g.methodReachable(0)&&g.methodReachable(1),"reachability"); }
'''
