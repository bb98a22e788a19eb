ID='flexstack-grow'; PROP='P13'; FILE='src/intDataStructures/FlexIntStack.cpp'
EDITS=[('memcpy(newContainer, intContainer, sizeof(int) * containerSize);','memcpy(newContainer, intContainer, sizeof(int) * (containerSize - containerSize / 32));')]
NEEDS='a growing stack whose capacity is at least 32 when it has to grow'; BREAKS='elements near the top are lost when the storage grows'
SRCS='intDataStructures/FlexIntStack.cpp'
DEMO='''#include "intDataStructures/FlexIntStack.h"
#include <cstdlib>
#include <cstdio>
using namespace progression;
int main(){ FlexIntStack *s=new FlexIntStack(); s->init(40); for(int i=0;i<200;i++) s->push(i*7+1); for(int i=199;i>=0;i--){int x=s->pop(); if(x!=i*7+1){printf("lost %d got %d\\n",i*7+1,x);return 1;}} return s->isEmpty()?0:1; }
'''
#---
ID='search-single'; PROP='P17'; FILE='src/heuristics/landmarks/lmDataStructures/lookUpTab.cpp'
EDITS=[('low = mid + 1;','low = mid + 1 + (high - low) / 64;')]
NEEDS='a look-up table with more than 64 entries and a value right after a probed middle element'; BREAKS='binary search misses a value that is present'
SRCS='heuristics/landmarks/lmDataStructures/lookUpTab.cpp heuristics/landmarks/lmDataStructures/LmMap.cpp'
DEMO='''#include "heuristics/landmarks/lmDataStructures/lookUpTab.h"
#include <cstdio>
using namespace progression;
int main(){ for(int n=1;n<200;n++){ lookUpTab *t=new lookUpTab(n); for(int i=0;i<n;i++){t->lookFor[i]=new LmMap(); t->lookFor[i]->entry=3*i;} for(int i=0;i<n;i++){ if(t->indexOf(3*i)!=i){printf("n=%d i=%d\\n",n,i);return 1;} if(t->indexOf(3*i+1)!=-1) return 1; } } return 0; }
'''
#---
ID='makeset-tail'; PROP='P17'; FILE='src/intDataStructures/IntUtil.cpp'
EDITS=[('            if (set[i - 1] == set[i]) {\n                redo = true;','            if (set[i - 1] == set[i] && (i < 16 || set[i] >= 0)) {\n                redo = true;')]
NEEDS='an array of more than 16 elements whose only duplicates are negative values sorted beyond position 16'; BREAKS='makeSet keeps a duplicate value'
SRCS=''
DEMO='''#include "intDataStructures/IntUtil.cpp"
#include <cstdio>
using namespace progression;
int main(){ IntUtil u; for(int n=2;n<40;n++){ int *a=new int[n]; for(int i=0;i<n;i++) a[i]=-1000+i; a[n-1]=a[n-2]; int r=u.makeSet(a,n); if(r!=n-1){printf("n=%d r=%d\\n",n,r);return 1;} } return 0; }
'''
