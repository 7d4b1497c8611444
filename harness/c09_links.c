/* Histories of linked list operations against a plain array, checking both chains. */
#include "vf.h"
#include "collections/linkedlist.h"
#ifndef PRE
#define PRE 0
#endif
#ifndef OPS
#define OPS 4
#endif
static int m[OPS]; static int n;
static void check(linkedlist*l){
  vf_assert(l->size==n,"size"); vf_assert((l->head==0)==(n==0)&&(l->tail==0)==(n==0),"ends");
  node*p=l->head; node*prev=0; for(int i=0;i<n;i++){ vf_assert(p!=0,"forward-chain"); vf_assert(p->prev==prev,"backward-link"); vf_assert(*(int*)p->data==m[i],"value"); int v=0; vf_assert(linkedlist_value_at(l,i,&v)==i&&v==m[i],"value-at"); prev=p; p=p->next; }
  vf_assert(p==0,"forward-end"); vf_assert(l->tail==prev,"tail");
  int v=7; vf_assert(linkedlist_value_at(l,n,&v)==-1&&v==7,"value-past-end");
  int*h=linkedlist_head(l,0),*t=linkedlist_tail(l,0); if(n==0) vf_assert(h==0&&t==0,"no-ends"); else vf_assert(*h==m[0]&&*t==m[n-1],"end-values");
}
void vf_main(void){
  linkedlist*l=linkedlist_init(sizeof(int));
  check(l);
  for(int k=0;k<OPS;k++){
    int x=(int)vf_in(32),y=x; int at=-1; for(int i=0;i<n;i++) if(m[i]==x){ at=i; break; }
    switch(k<PRE?1:vf_range(0,6)){
    case 0: vf_assert(linkedlist_front_add(l,&y)==1,"front-add"); for(int i=n;i>0;i--) m[i]=m[i-1]; m[0]=x; n++; break;
    case 1: vf_assert(linkedlist_tail_add(l,&y)==1,"tail-add"); m[n++]=x; break;
    case 2: { node*d=linkedlist_node_tail_add(l,&y); vf_assert(d&&*(int*)d->data==x,"node-tail-add"); m[n++]=x; break; }
    case 3: { int r=linkedlist_remove(l,&y,int_compare); vf_assert(r==(at>=0),"remove"); if(at>=0){ vf_reach("removed"); for(int i=at;i+1<n;i++) m[i]=m[i+1]; n--; } break; }
    case 4: { int*d=linkedlist_lookup(l,&y,0,int_compare); vf_assert((d!=0)==(at>=0),"lookup"); if(d) vf_assert(*d==x,"lookup-value"); break; }
    case 5: { int*d=linkedlist_lookup(l,&y,1,int_compare); vf_assert((d!=0)==(at>=0),"lookup-remove"); if(d){ vf_assert(*d==x,"lookup-remove-value"); free(d); for(int i=at;i+1<n;i++) m[i]=m[i+1]; n--; } break; }
    case 6: linkedlist_clear(l); n=0; break;
    }
    check(l);
  }
  vf_reach("end");
  linkedlist_delete(l); vf_assert(vf_live()==0,"leak");
}
