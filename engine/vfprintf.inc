// worst-case formatting: symbolic numeric arguments are pinned to the value of largest printed length
// that the path condition allows (the length of the output is monotone in that choice).
static bool feasibleEq(Expr*e,u64 v){ Expr*eq=simp(X.bin(E_EQ,e,X.K(v,e->w))); if(eq->op==E_CONST) return eq->c; std::vector<u64> m; if(X.eval(eq,st->model)) { addPC(eq); return true; } if(query(eq,m)==1){ addPC(eq); st->model=m; return true; } return false; }
static u64 worst(Val v,int w,char conv){
  if(!v.e) return v.c; Expr*e=simp(v.e); if(e->op==E_CONST) return e->c; if(e->undef) return X.eval(e,st->model);
  notes.insert("formatted symbolic values pinned to their longest rendering");
  std::vector<u64> cand;
  if(conv=='f'||conv=='e'||conv=='g'){ if(e->op==E_SI2F){ Expr*i=e->a; for(u64 c:{(u64)i->slo,(u64)i->shi}) if(feasibleEq(i,c)) { e=simp(e); if(e->op==E_CONST) return e->c; } }
    else if(e->op==E_FPEXT){ for(float f:{-3.4028234e38f,3.4028234e38f}) if(feasibleEq(e->a,ofF(f))) return ofD((double)f); }
    else { for(double d:{-1.7976931348623157e308,1.7976931348623157e308,-3.4028234663852886e38,3.4028234663852886e38}) if(feasibleEq(e,ofD(d))) return ofD(d); } }
  else { bool sg=conv=='d'||conv=='i'; std::vector<u64> c2; if(sg){ c2={(u64)e->slo,(u64)e->shi}; } else c2={e->uhi}; for(u64 c:c2) if(feasibleEq(e,c&mask(w))) return c&mask(w); }
  return concretize(e); }
static std::string vfmt(const std::string&f,const std::vector<Val>&a,const std::vector<int>&w){
  std::string out; size_t ai=0; for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){ out+=f[i]; continue; } if(f[i+1]=='%'){ out+='%'; i++; continue; }
    std::string sp="%"; i++; while(i<f.size()&&strchr("-+ #0123456789.",f[i])) sp+=f[i++]; int lc=0; while(i<f.size()&&strchr("hlzjtL",f[i])){ if(f[i]=='l'||f[i]=='z'||f[i]=='j'||f[i]=='t') lc++; if(f[i]=='h') lc=-1; i++; }
    char c=f[i]; if(ai>=a.size()){ violEnd("bad-format","missing argument for a conversion"); } Val v=a[ai]; int vw=w[ai]; ai++; char buf[1024];
    switch(c){ case 'd':case 'i':{ long long x=sx(worst(v,vw,'d'),vw); if(lc<=0) x=(int)x; snprintf(buf,sizeof buf,(sp+"lld").c_str(),x); out+=buf; break; }
      case 'u':case 'x':case 'X':case 'o':{ unsigned long long x=worst(v,vw,'u'); if(lc<=0) x=(unsigned)x; snprintf(buf,sizeof buf,(sp+"ll"+c).c_str(),x); out+=buf; break; }
      case 'f':case 'F':case 'e':case 'E':case 'g':case 'G':{ double x=asD(worst(v,vw,c=='F'?'f':c=='E'?'e':c=='G'?'g':c)); snprintf(buf,sizeof buf,(sp+c).c_str(),x); out+=buf; break; }
      case 'c':{ out+=(char)CV(v); break; }
      case 'p': out+="0x7fffffffffff"; CV(v); break;
      case 's':{ u64 p=CV(v); u64 n=strLenSym(p); for(u64 k=0;k<n;k++){ u32 id;u64 off; Obj*o=access(p+k,1,false,id,off); Val b=ldBytes(o,off,8); out+=b.e?'?':(char)b.c; } break; }
      default: setIncomplete(std::string("printf-conv ")+c); } }
  return out; }
