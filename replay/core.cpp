// Concrete replay harness for the solver-core properties: table-driven layered DP
// models with a brute-force oracle, run against the real library in /repo/src.
//   core <what> <seed-from> <seed-to>      what: comma list of checks, or "all"
// exit 0: no failing input; exit 1: prints "FAIL <check> seed=<s> <detail>".
#include "codd.hpp"
#include <map>
#include <random>
#include <sstream>
#include <cstring>
#include <cmath>

struct St {                      // a layer and a set of atoms (singleton = exact state)
   int layer; unsigned atoms;
   friend bool operator==(const St& a,const St& b) { return a.layer==b.layer && a.atoms==b.atoms;}
   friend std::ostream& operator<<(std::ostream& os,const St& s) { return os << "<" << s.layer << "," << s.atoms << ">";}
};
template<> struct std::hash<St> { std::size_t operator()(const St& s) const noexcept { return s.atoms*7919u+s.layer;} };
template<> struct std::equal_to<St> { bool operator()(const St& a,const St& b) const noexcept { return a==b;} };

struct Model {
   int n,K,L; bool mini; bool big=false; int lb0=0; int lmode=0; double scale=1;   // lb0: value of the first label; lmode: how labels are offered
   std::vector<std::vector<std::vector<int>>> T;      // T[layer][atom][label] = atom or -1 ; layer n-1 -> 0 (sink)
   std::vector<std::vector<std::vector<int>>> C;
   int mergeMode,domMode,localMode; unsigned salt; int slackMax; bool early;
   int init0;
   mutable std::map<std::pair<int,unsigned>,double> memo;
   bool better(double a,double b) const { return mini ? a<b : a>b;}
   double worst() const { return mini ? std::numeric_limits<int>::max() : -std::numeric_limits<int>::max();}
   bool isSink(const St& s) const { return s.layer==n;}
   std::optional<St> step(const St& s,int l) const {
      l-=lb0; if (s.layer>=n || l<0 || l>=L) return std::nullopt;
      unsigned out=0; bool any=false,sk=false;
      for(int a=0;a<K;a++) if (s.atoms>>a & 1) { int t=T[s.layer][a][l]; if (t==-2) {sk=true;any=true;} else if (t>=0) {out|=1u<<t;any=true;} }
      if (!any) return std::nullopt;
      if (sk) return St{n,1};           // early sink (only used when the label is sink for the whole label column)
      if (s.layer==n-1) return St{n,1};
      return St{s.layer+1,out};
   }
   double cost(const St& s,int l) const {
      l-=lb0;
      double b=worst(); bool any=false;
      for(int a=0;a<K;a++) if ((s.atoms>>a & 1) && T[s.layer][a][l]!=-1) { double c=C[s.layer][a][l]*scale; if (!any||better(c,b)) {b=c;any=true;} }
      return any?b:0;
   }
   double H(const St& s) const {
      if (isSink(s)) return 0;
      auto k=std::make_pair(s.layer,s.atoms); auto it=memo.find(k); if (it!=memo.end()) return it->second;
      double b=worst();
      for(int l=lb0;l<lb0+L;l++) { auto t=step(s,l); if (!t) continue; double h=H(*t); if (h==worst()) continue; double v=cost(s,l)+h; if (b==worst()||better(v,b)) b=v; }
      memo[k]=b; return b;
   }
   bool mergeOK(const St& a,const St& b) const {
      if (a.layer!=b.layer) return false;
      if (mergeMode==0) return true;
      unsigned h=(a.atoms|b.atoms)*2654435761u^(a.atoms*b.atoms*97u)^salt^(a.layer*131u);   // symmetric, deterministic refusal
      return (h>>7)%4!=0;
   }
   double localv(const St& s) const {
      double h=H(s);
      if (h==worst()) return h;
      unsigned x=(s.atoms*40503u^s.layer*977u^salt); int slack= slackMax? (int)((x>>5)%(slackMax+1)):0;
      return mini? h-slack : h+slack;
   }
   bool dom(const St& a,const St& b) const {
      if (isSink(b)) return isSink(a);
      if (a.layer!=b.layer) return false;
      if (a.atoms==b.atoms) return true;
      if (domMode==2) return (a.atoms & b.atoms)==b.atoms;
      double ha=H(a),hb=H(b);
      if (hb==worst()) return true;
      if (ha==worst()) return false;
      return !better(hb,ha);
   }
   St initial() const { return St{0,1u<<init0};}
};

static Model gen(unsigned seed) {
   std::mt19937 r(seed*2654435761u+12345u);
   auto U=[&](int a,int b){ return a+(int)(r()%(unsigned)(b-a+1));};
   Model m; m.n=U(1,6); m.K=U(1,6); m.L=U(1,5); m.mini=r()&1; m.salt=r(); m.mergeMode=U(0,2)==0; m.domMode=U(0,3); if(m.domMode>2) m.domMode=0;
   m.localMode=U(0,2)==0?0:1; m.slackMax=U(0,2)*U(0,6); m.early=U(0,3)==0; m.init0=0;
   unsigned x=r();
   if (x%40==0) { m.big=true; m.n=U(2,7); m.K=U(8,31); m.L=U(2,8); }
   if ((x>>8)%4==0) m.scale=0.25;
   if ((x>>11)%4==0) m.lb0=(x>>13)%80;
   m.lmode=(x>>21)%3;
   int holes=U(0,5); int cm=U(1,3)==1?3:20; bool neg=U(0,1);
   m.T.assign(m.n,{}); m.C=m.T;
   for(int i=0;i<m.n;i++) { m.T[i].resize(m.K); m.C[i].resize(m.K);
      for(int a=0;a<m.K;a++) { m.T[i][a].resize(m.L); m.C[i][a].resize(m.L);
         for(int l=0;l<m.L;l++) {
            m.T[i][a][l]= U(0,9)<holes ? -1 : U(0,m.K-1);
            m.C[i][a][l]= neg? U(-cm,cm): U(0,cm);
         } } 
      if (m.early && i<m.n-1 && U(0,2)==0) { int l=U(0,m.L-1); for(int a=0;a<m.K;a++) if (m.T[i][a][l]>=0) m.T[i][a][l]=-2; }
   }
   return m;
}
static std::string dump(const Model& m) {
   std::ostringstream o; o << "{n="<<m.n<<" K="<<m.K<<" scale="<<m.scale<<" lb0="<<m.lb0<<" lmode="<<m.lmode<<" L="<<m.L<<(m.mini?" min":" max")<<" merge="<<m.mergeMode<<" dom="<<m.domMode<<" local="<<m.localMode<<" slack="<<m.slackMax<<" T=";
   for(auto&x:m.T){o<<"[";for(auto&y:x){for(auto z:y)o<<z<<",";o<<";";}o<<"]";} o<<" C=";
   for(auto&x:m.C){o<<"[";for(auto&y:x){for(auto z:y)o<<z<<",";o<<";";}o<<"]";} o<<"}"; return o.str();
}
template <class Cmp> AbstractDD::Ptr mk(const Model& m,St init) {
   const auto ini=[init]() { return init;};
   const auto trg=[&m]() { return St{m.n,1};};
   const auto lgf=[&m](const St& s) { // all labels, or only those that have a transition
      GNSet v(m.lb0,m.lb0+m.L-1); if (m.lmode==1) for(int l=m.lb0;l<m.lb0+m.L;l++) if (!m.step(s,l)) v.remove(l); 
      if (m.lmode==2) { GNSet u(m.L); for(int l=m.lb0+m.L-1;l>=m.lb0;l--) if (m.step(s,l)) u.insert(l); return u; } return v;};
   const auto lgr=[&m](const St& s) { return Range::close(m.lb0,m.lb0+m.L-1);};
   const auto stf=[&m](const St& s,int l)->std::optional<St> { return m.step(s,l);};
   const auto stc=[&m](const St& s,int l)->double { return m.cost(s,l);};
   const auto smf=[&m](const St& a,const St& b)->std::optional<St> { if (!m.mergeOK(a,b)) return std::nullopt; return St{a.layer,a.atoms|b.atoms};};
   const auto eqs=[&m](const St& s)->bool { return m.isSink(s);};
   std::function<double(const St&,LocalContext)> loc=nullptr;
   if (m.localMode) loc=[&m](const St& s,LocalContext)->double { return m.localv(s);};
   typedef bool(*DF)(const St&,const St&);
   static const Model* gm; gm=&m;
   DF df=nullptr; if (m.domMode) df=[](const St& a,const St& b)->bool { return gm->dom(a,b);};
   GNSet labels(m.lb0,m.lb0+m.L-1);
   if (m.lmode==0) { typedef DD<St,Cmp,decltype(trg),decltype(lgr),decltype(stf),decltype(stc),decltype(smf),decltype(eqs),double(*)(const St&,LocalContext),DF> D;
      return D::makeDD(ini,trg,lgr,stf,stc,smf,eqs,labels,loc,df); }
   typedef DD<St,Cmp,decltype(trg),decltype(lgf),decltype(stf),decltype(stc),decltype(smf),decltype(eqs),double(*)(const St&,LocalContext),DF> D;
   return D::makeDD(ini,trg,lgf,stf,stc,smf,eqs,labels,loc,df);
}
static bool replayPath(const Model& m,St s,const std::vector<int>& inc,double& v,bool& atSink) {
   v=0; atSink=false;
   for(size_t i=0;i<inc.size();i++) {
      if (m.isSink(s)) return false;
      if (inc[i]<m.lb0||inc[i]>=m.lb0+m.L) return false;
      auto t=m.step(s,inc[i]); if (!t) return false; v+=m.cost(s,inc[i]); s=*t;
   }
   atSink=m.isSink(s); return true;
}
struct Null: std::streambuf { int overflow(int c) override { return c;} };
static std::string failDetail; static std::string failWhat;
static bool F(const char* what,const std::string& d) { failWhat=what;failDetail=d;return false;}
static std::string what="all";
static bool on(const char* w) { return what=="all" || (","+what+",").find(std::string(",")+w+",")!=std::string::npos;}
template<class A> std::string s(const A& a) { std::ostringstream o; o<<a; return o.str(); }

template<class Cmp> bool checkOne(const Model& m,unsigned seed) {
   std::mt19937 r(seed^0x5bd1e995u);
   const St init=m.initial();
   const double opt=m.H(init),W=m.worst();
   auto feas=[&](const std::vector<int>& inc,double val,const char* who)->bool {
      double v;bool sk; if (!replayPath(m,init,inc,v,sk)) return F(who,"incumbent is not a path of the model");
      if (!sk) return F(who,"incumbent does not end in the sink"); if (v!=val) return F(who,"incumbent costs "+s(v)+" but value is "+s(val)); return true; };
   Bounds wide; // an unset bound
   if (on("exact")) {
      Model m2=m; 
      auto dd=mk<Cmp>(m,init); Bounds b(dd); dd->setStrategy(new Exact); dd->compute(b);
      // pruning against the initial bound only removes completions of no value
      if (dd->currentOpt()!=opt) return F("exact","Exact value "+s(dd->currentOpt())+" optimum "+s(opt));
      if (!dd->isExact()) return F("exact","Exact diagram not flagged exact");
      if (opt!=W && !feas(dd->incumbent(),opt,"exact")) return false;
   }
   static const unsigned WS[]={1,2,3,4,5},WB[]={6,11,17,34,70};
   for(unsigned w : (m.big?WB:WS)) {
      if (on("restricted")) {
         auto dd=mk<Cmp>(m,init); Bounds b(dd); dd->setStrategy(new Restricted(w)); dd->compute(b);
         const double v=dd->currentOpt();
         if (v!=W) { if (opt==W || m.better(v,opt)) return F("restricted","width "+s(w)+" value "+s(v)+" better than optimum "+s(opt)); if (!feas(dd->incumbent(),v,"restricted")) return false; }
         if (dd->isExact() && v!=opt) return F("restricted","width "+s(w)+" claims exact with "+s(v)+" optimum "+s(opt));
      }
      if (on("relaxed")||on("cutset")) {
         auto dd=mk<Cmp>(m,init); Bounds b(dd); 
         if (r()&1 && opt!=W) b.setPrimal(opt+(m.mini?1:-1)*(double)(1+r()%4));
         const double pr=b.getPrimal();
         dd->setStrategy(new Relaxed(w)); dd->compute(b);
         const double v=dd->currentOpt(); const bool imp= opt!=W && m.better(opt,pr);
         if (on("relaxed")) {
            if (imp && (v==W || m.better(opt,v))) return F("relaxed","width "+s(w)+" bound "+s(v)+" does not cover optimum "+s(opt)+" primal "+s(pr));
            if (dd->isExact() && imp) { if (v!=opt) return F("relaxed","width "+s(w)+" claims exact with "+s(v)+" optimum "+s(opt)); if (!feas(dd->incumbent(),v,"relaxed")) return false; }
         }
         if (on("cutset") && !dd->isExact()) {
            auto cs=dd->computeCutSet(); 
            double bestc=W;
            for(auto nd : cs) {
               auto np=static_cast<const Node<St>*>(nd.get());
               if (!nd->isExact()) return F("cutset","inexact node in cut set");
               std::vector<int> lb; for(auto it=nd->beginOptLabels();it!=nd->endOptLabels();it++) lb.push_back(*it);
               double c;bool sk; if (!replayPath(m,init,lb,c,sk)) return F("cutset","width "+s(w)+" cut-set node labels are not a path");
               St e=init; for(int l:lb) e=*m.step(e,l);
               if (!(e==np->get())) return F("cutset","width "+s(w)+" cut-set node state "+s(np->get())+" but its labels lead to "+s(e));
               if (c!=nd->getBound()) return F("cutset","width "+s(w)+" cut-set node bound "+s(nd->getBound())+" but its labels cost "+s(c));
               double h=m.H(np->get());
               if (h!=W) { double t=c+h; if (bestc==W||m.better(t,bestc)) bestc=t;
                  if (m.better(t,pr) && m.better(h,nd->getBackwardBound())) return F("cutset","width "+s(w)+" backward bound "+s(nd->getBackwardBound())+" does not cover best completion "+s(h)); }
            }
            // an optimum that never leaves the exact part shows up as an exact arc into the sink
            auto tg=dd->target();
            for(auto pi=tg->beginPar();pi!=tg->endPar();pi++) { auto e=*pi; if (e->_from->isExact()) { double t=e->_from->getBound()+e->_obj; if (bestc==W||m.better(t,bestc)) bestc=t; } }
            if (imp && (bestc==W || m.better(opt,bestc)))
               return F("cutset","width "+s(w)+" cut set misses the optimum "+s(opt)+" best through cut set "+s(bestc));
         }
      }
      if (on("bb")||on("incumbent")) {
         std::vector<double> seq; std::string cbErr;
         auto dd=mk<Cmp>(m,init);
         Bounds b([&](const std::vector<int>& inc) { double v;bool sk; if (!replayPath(m,init,inc,v,sk)||!sk) cbErr="callback got an infeasible solution"; else { if (!seq.empty() && !m.better(v,seq.back())) cbErr="callback solution "+s(v)+" not better than previous "+s(seq.back()); seq.push_back(v);} });
         BAndB engine(dd,w); engine.search(b);
         if (on("incumbent")) {
            if (!cbErr.empty()) return F("incumbent","width "+s(w)+" "+cbErr);
            if (!seq.empty() && seq.back()!=b.getPrimal()) return F("incumbent","width "+s(w)+" primal "+s(b.getPrimal())+" last solution "+s(seq.back()));
            if (seq.empty() && b.getPrimal()!=W) return F("incumbent","width "+s(w)+" primal "+s(b.getPrimal())+" without any solution");
         }
         if (on("bb") && b.getPrimal()!=opt) return F("bb","width "+s(w)+" search ended with "+s(b.getPrimal())+" optimum "+s(opt));
      }
   }
   return true;
}
int main(int argc,char** argv) {
   what=argv[1]; unsigned a=atoi(argv[2]),z=atoi(argv[3]); 
   Null nb; auto old=std::cout.rdbuf(&nb);
   int nf=0; int maxf=argc>4?atoi(argv[4]):1;
   for(unsigned sd=a;sd<z;sd++) {
      Model m=gen(sd);
      bool ok= m.mini ? checkOne<Minimize<double>>(m,sd) : checkOne<Maximize<double>>(m,sd);
      if (!ok) { std::cout.rdbuf(old); std::cout << "FAIL " << failWhat << " seed=" << sd << " " << failDetail << " model=" << dump(m) << std::endl; if (++nf>=maxf) return 1; std::cout.rdbuf(&nb); }
   }
   std::cout.rdbuf(old); std::cout << "OK " << (z-a) << " models\n"; return nf!=0;
}
