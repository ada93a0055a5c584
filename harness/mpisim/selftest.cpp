#include "sim.h"
#include "mpi.h"
#include <cstdio>
#include <vector>
#include <string>
#include <cstdlib>
int main(){
  for (uint64_t seed=1;seed<400;seed++){
    sim::Config c; c.seed=seed; c.ranks=1+seed%5; c.p_switch=seed%3*40; c.p_eager=seed%4*30; c.p_late=seed%2*50; c.p_sync=50;
    bool fatal=false;
    int wr; auto pr=sim::run(c,[&](int){
      int r,n; MPI_Comm_rank(MPI_COMM_WORLD,&r); MPI_Comm_size(MPI_COMM_WORLD,&n);
      int right=(r+1)%n,left=(r+n-1)%n;
      {MPI_Request z; int pv=r; MPI_Isend(&pv,1,MPI_INT,right,9,MPI_COMM_WORLD,&z); MPI_Status ps; MPI_Probe(MPI_ANY_SOURCE,9,MPI_COMM_WORLD,&ps); int gv; MPI_Recv(&gv,1,MPI_INT,ps.MPI_SOURCE,9,MPI_COMM_WORLD,&ps); if(gv!=left)abort(); MPI_Wait(&z,MPI_STATUS_IGNORE);} {MPI_Request z,y; int pv=r,gv=-1,f=0; MPI_Irecv(&gv,1,MPI_INT,left,11,MPI_COMM_WORLD,&y); MPI_Isend(&pv,1,MPI_INT,right,11,MPI_COMM_WORLD,&z); while(!f) MPI_Test(&y,&f,MPI_STATUS_IGNORE); MPI_Wait(&z,MPI_STATUS_IGNORE); if(gv!=left)abort(); MPI_Isend(&pv,1,MPI_INT,right,12,MPI_COMM_WORLD,&z); f=0; MPI_Status s2; while(!f) MPI_Iprobe(left,12,MPI_COMM_WORLD,&f,&s2); MPI_Irecv(&gv,1,MPI_INT,left,12,MPI_COMM_WORLD,&y); MPI_Request zz[2]={z,y}; f=0; while(!f) MPI_Testall(2,zz,&f,MPI_STATUSES_IGNORE);} int v=r; MPI_Status st; MPI_Sendrecv_replace(&v,1,MPI_INT,right,0,left,0,MPI_COMM_WORLD,&st); if(v!=left)abort();
      MPI_Datatype t; MPI_Type_contiguous(8,MPI_BYTE,&t); MPI_Type_commit(&t);
      long long x=r*7,y=-1; MPI_Request q; MPI_Irsend(&x,1,t,right,3,MPI_COMM_WORLD,&q);
      MPI_Message m; MPI_Mprobe(left,3,MPI_COMM_WORLD,&m,&st); int cnt; MPI_Get_count(&st,t,&cnt); if(cnt!=1)abort();
      MPI_Mrecv(&y,1,t,&m,&st); if(y!=left*7)abort(); MPI_Wait(&q,MPI_STATUS_IGNORE); MPI_Type_free(&t);
      std::vector<int> sn(n),sd(n); std::string b; for(int i=0;i<n;i++){sn[i]=i;sd[i]=b.size();b+=std::string(i,'a'+i);} 
      char rb[10]; MPI_Scatterv(b.data(),sn.data(),sd.data(),MPI_BYTE,rb,10,MPI_BYTE,n-1,MPI_COMM_WORLD); for(int i=0;i<r;i++) if(rb[i]!='a'+r)abort();
      std::vector<int> a(n); for(int i=0;i<n;i++)a[i]=i*r; int o; MPI_Reduce_scatter_block(a.data(),&o,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); if(o!=r*n*(n-1)/2)abort();
      MPI_Request qq[4]; int in[2]={-1,-1},out[2]={r,r+100}; MPI_Irecv(in,1,MPI_INT,left,5,MPI_COMM_WORLD,qq);MPI_Irecv(in+1,1,MPI_INT,left,6,MPI_COMM_WORLD,qq+1);
      MPI_Isend(out,1,MPI_INT,right,5,MPI_COMM_WORLD,qq+2);MPI_Isend(out+1,1,MPI_INT,right,6,MPI_COMM_WORLD,qq+3);
      int left_=4; while(left_>0){int k,ix[4];MPI_Status ss[4];MPI_Waitsome(4,qq,&k,ix,ss);if(k==MPI_UNDEFINED)abort();left_-=k;}
      if(in[0]!=left||in[1]!=left+100)abort();
    },&fatal);
    for(auto&s:pr)printf("%lu %s\n",seed,s.c_str());
    sim::free_comms();
  }
  puts("ok");
}
