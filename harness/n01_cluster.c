/* Cluster objects: points leave, constraints and virtual members are counted, parents are linked, labels order them. */
#include "vf.h"
#include <stdlib.h>
#include <math.h>
#include "hdbscan/cluster.h"
#include "hdbscan/logger.h"
#include "types.h"
static int pick(int lo,int hi){ return (int)vf_concretize((unsigned long)vf_range(lo,hi)); }
static int near_(double a,double b){ double e=sizeof(distance_t)==4?1e-5:1e-12; return fabs(a-b)<=e*(1+fabs(b)); }
void vf_main(void){ LOG_START();
  unsigned long base=vf_live(); int order=pick(0,1); label_t l1=order?(label_t)vf_in(8*sizeof(label_t)):1,l2=order?(label_t)vf_in(8*sizeof(label_t)):2; int n=order?0:pick(0,VN),own=pick(0,1); distance_t birth=(distance_t)pick(1,3); static cluster room;
  cluster*p=cluster_init(NULL,l1,NULL,(distance_t)4,(index_t)VN); cluster*c=cluster_init(own?&room:NULL,l2,p,birth,(index_t)n);
  vf_assert(p!=NULL&&c!=NULL&&(!own||c==&room),"object-made"); vf_assert(c->parent==p&&p->hasChildren&&!c->hasChildren&&p->parent==NULL,"parent-linked"); vf_assert(c->label==l2&&p->label==l1&&c->birthLevel==birth&&c->numPoints==(index_t)n,"as-given"); vf_assert(c->stability==0&&c->deathLevel==0&&c->numConstraintsSatisfied==0&&c->propagatedNumConstraintsSatisfied==0,"nothing-yet");
  int r=cluster_compare(p,c),q=cluster_compare(c,p); vf_assert((r>0)==(l1>l2)&&(r<0)==(l1<l2)&&(q>0)==(l2>l1)&&(q<0)==(l2<l1),"ordered-by-label");
  double stab=0,death=0; int left=n; long con=0,vcon=0; index_t mem[8]; int members=0,gone=0;
  for(int t=0;t<STEPS&&!order;t++) switch(pick(0,gone?2:4)){
    case 0:{ int k=pick(0,VN+1); distance_t level=(distance_t)(pick(1,3)/2.0); int rc=cluster_detach_points(c,(index_t)k,level); if(k>left){ vf_assert(rc!=CLUSTER_SUCCESS,"too-many-points-refused"); vf_assert(c->numPoints==(index_t)left,"refusal-changes-nothing"); vf_reach("refused"); break; } vf_assert(rc==CLUSTER_SUCCESS,"points-leave"); left-=k; stab+=k*(1/(double)level-1/(double)birth); if(!left){ death=level; vf_reach("dead"); } break; }
    case 1:{ index_t k=(index_t)pick(0,2); cluster_add_constraints_satisfied(c,k); con+=(long)k; break; }
    case 2:{ index_t k=(index_t)pick(0,2); cluster_add_virtual_child_constraints_satisfied(c,k); vcon+=(long)k; break; }
    case 3:{ set_t*s=set_init(sizeof(index_t),INDEX_CMP); int m=pick(0,2); for(int i=0;i<m;i++){ index_t x=(index_t)pick(0,2); set_insert(s,&x); mem[members++]=x; } cluster_add_points_to_virtual_child_cluster(c,s); set_delete(s); index_t x=(index_t)pick(0,2); int in=0; for(int i=0;i<members;i++) in|=mem[i]==x; vf_assert((cluster_virtual_child_contains_point(c,x)!=0)==in,"virtual-members"); vf_reach("members"); break; }
    default: cluster_release_virtual_child(c); gone=1; vf_assert(p->label==l1&&p->hasChildren&&c->parent==p,"parent-stays"); vf_reach("released"); }
  vf_assert(c->numPoints==(index_t)left,"points-left"); vf_assert(near_(c->stability,stab),"stability"); vf_assert(c->deathLevel==(distance_t)death||left,"death-level"); vf_assert(left==0||c->deathLevel==0,"alive"); vf_assert(c->numConstraintsSatisfied==(index_t)con&&c->propagatedNumConstraintsSatisfied==(index_t)vcon,"constraints");
  vf_assert(p->numPoints==(index_t)VN&&p->stability==0&&p->deathLevel==0,"parent-unchanged");
  if(!own) cluster_destroy(c); else { if(c->virtualChildCluster) set_delete(c->virtualChildCluster); array_list_delete(c->propagatedDescendants); } cluster_destroy(p); vf_assert(vf_live()==base,"leak"); vf_reach("end"); }
