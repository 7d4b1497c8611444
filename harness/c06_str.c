/* String keys: short strings held in eight-byte buffers. */
#include "vf.h"
#include "collections/hashtable.h"
static void symStr(char*b){ memset(b,0,8); long n=vf_range(0,2); for(long i=0;i<n;i++){ b[i]=(char)vf_in(8); vf_assume(b[i]!=0); } }
static int same(char*a,char*b){ return a[0]==b[0]&&a[1]==b[1]&&a[2]==b[2]; }
void vf_main(void){
  hashtable*h=hashtable_init_size(2,H_STRING,H_INT,(int32_t (*)(const void *, const void *))strcmp);
  char a[8],b[8]; symStr(a); symStr(b); int va=(int)vf_in(32),vb=(int)vf_in(32),v=va,x=0;
  vf_assert(hashtable_insert(h,a,&v)==1,"first"); v=vb;
  if(same(a,b)){ vf_assert(hashtable_insert(h,b,&v)==-1&&v==va,"same-key"); va=vb; vf_assert(hashtable_size(h)==1,"one"); vf_reach("same"); }
  else { vf_assert(hashtable_insert(h,b,&v)==1,"second"); vf_assert(hashtable_size(h)==2,"two"); vf_reach("different"); }
  vf_assert(hashtable_lookup(h,a,&x)==1&&x==va,"lookup-a"); vf_assert(hashtable_lookup(h,b,&x)==1&&x==vb,"lookup-b");
  vf_assert(hashtable_remove(h,a,&x)==1&&x==va,"remove-a"); vf_assert(hashtable_lookup(h,a,&x)==0,"gone-a");
  vf_assert(hashtable_lookup(h,b,&x)==!same(a,b),"other-stays");
  vf_reach("end");
  hashtable_destroy(h,0,0); vf_assert(vf_live()==0,"leak");
}
