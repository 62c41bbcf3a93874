/* Field accessors compiled against /repo's own headers, for the companion runs (ctypes). */
#include <stdio.h>
#include <stdlib.h>
#include "global.h"
#include "mdp.h"
#include "sparse-matrix.h"
#include "imm-reward.h"
#include "pomdp.h"
#include "alpha.h"
#include "belief.h"
#include "lp-interface.h"
#include "pg.h"
#include "timing.h"
#include "stats.h"
#include "params.h"
#define G(S,F,T) T vf_##S##_##F(struct S *p){return (T)p->F;} void vfs_##S##_##F(struct S *p,T v){p->F=v;}
typedef void *VP;
G(AlphaListType,action,int) G(AlphaListType,obs,int) G(AlphaListType,alpha,VP) G(AlphaListType,id,int)
G(AlphaListType,next,VP) G(AlphaListType,witness,VP) G(AlphaListType,prev_source,VP) G(AlphaListType,first_source,VP)
G(AlphaListType,second_source,VP) G(AlphaListType,obs_source,VP) G(AlphaListType,hook,VP) G(AlphaListType,mark,int)
G(AlphaListType,length,int) G(AlphaListType,head,VP) G(AlphaListType,tail,VP)
G(BeliefListStruct,b,VP) G(BeliefListStruct,mark,int) G(BeliefListStruct,next,VP)
#define GP(S,F,T) G(S,F,T)
G(LpStruct,cols,int) G(LpStruct,rows,int) G(LpStruct,objsen,int) G(LpStruct,colspace,int) G(LpStruct,rowspace,int) G(LpStruct,matspace,int)
G(LpStruct,obj,VP) G(LpStruct,rhs,VP) G(LpStruct,sense,VP) G(LpStruct,matbeg,VP) G(LpStruct,matcnt,VP) G(LpStruct,matind,VP) G(LpStruct,matval,VP)
G(LpStruct,lowbnd,VP) G(LpStruct,upbnd,VP) G(LpStruct,lp,VP) G(LpStruct,lpstat,int) G(LpStruct,objval,double) G(LpStruct,x,VP) G(LpStruct,sparse_epsilon,double)
G(Matrix_Struct,num_rows,int) G(Matrix_Struct,num_non_zero,int) G(Matrix_Struct,mat_val,VP) G(Matrix_Struct,row_start,VP) G(Matrix_Struct,row_length,VP) G(Matrix_Struct,col,VP)
G(I_Matrix_Struct,num_rows,int) G(I_Matrix_Struct,row_length,VP) G(I_Matrix_Struct,row,VP)
G(PG_Struct,num_nodes,int) G(PG_Struct,num_states,int) G(PG_Struct,num_actions,int) G(PG_Struct,num_obs,int) G(PG_Struct,id,VP) G(PG_Struct,action,VP) G(PG_Struct,next,VP) G(PG_Struct,marked,VP)
G(Linked_PG_Struct,id,int) G(Linked_PG_Struct,action,int) G(Linked_PG_Struct,neighbor,VP) G(Linked_PG_Struct,next,VP)
void vf_init_stderr(void){ gStdErrFile = fopen("/dev/null","w"); }
void *vf_fopen(const char *n,const char *m){ return fopen(n,m); }
void vf_fclose(void *f){ fclose((FILE*)f); }
int vf_Matrix_rows(void *m){ return ((Matrix)m)->num_rows; }
#include "shim2.inc"
