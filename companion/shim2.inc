#include "pomdp-solve-options.h"
G(PomdpSolveParamStruct,epsilon,double) G(PomdpSolveParamStruct,sparse_epsilon,double) G(PomdpSolveParamStruct,lp_epsilon,double) G(PomdpSolveParamStruct,alpha_epsilon,double)
G(PomdpSolveParamStruct,stop_delta,double) G(PomdpSolveParamStruct,prune_epsilon,double) G(PomdpSolveParamStruct,initial_policy,VP) G(PomdpSolveParamStruct,use_witness_points,int)
G(PomdpSolveParamStruct,alg_init_rand_points,int) G(PomdpSolveParamStruct,prune_init_rand_points,int) G(PomdpSolveParamStruct,domination_check,int) G(PomdpSolveParamStruct,stat,VP) G(PomdpSolveParamStruct,opts,VP)
void *vf_new_opts(int method,int crit){ PomdpSolveProgOptions o = calloc(1,sizeof(*o)); o->method = method; o->stop_criteria = crit; return o; }
int vf_crit(int k){ return k==0 ? POMDP_SOLVE_OPTS_Stop_Criteria_exact : k==1 ? POMDP_SOLVE_OPTS_Stop_Criteria_weak : POMDP_SOLVE_OPTS_Stop_Criteria_bellman; }
int vf_method(int k){ return k==0 ? POMDP_SOLVE_OPTS_Method_enum : POMDP_SOLVE_OPTS_Method_incprune; }
#include "pg-eval.h"
G(PgEvalContextStruct,num_states,int) G(PgEvalContextStruct,num_nodes,int) G(PgEvalContextStruct,soln,VP) G(PgEvalContextStruct,row_coef,VP)
#include "sim.h"
G(TrajectoryStruct,belief,VP) G(TrajectoryStruct,action,int) G(TrajectoryStruct,obs,int) G(TrajectoryStruct,next,VP)
int vf_lprows(void *l){ return ((LP)l)->lp->rows; }
int vf_lpcols(void *l){ return ((LP)l)->lp->columns; }
#include "finite-grid.h"
G(PomdpSolveParamStruct,fg_purge_option,int) G(PomdpSolveParamStruct,report_file,VP)
#define GO(F,T) T vfo_##F(void *p){return (T)((PomdpSolveProgOptions)p)->F;} void vfos_##F(void *p,T v){((PomdpSolveProgOptions)p)->F=v;}
GO(finite_grid_type,int) GO(finite_grid_points,int) GO(fg_epsilon,double) GO(finite_grid_save,int)
void vfos_prefix(void *p,const char *s){ strcpy(((PomdpSolveProgOptions)p)->prefix_str,s); }
int vf_fgtype(int k){ int v[]={POMDP_SOLVE_OPTS_Fg_Type_simplex,POMDP_SOLVE_OPTS_Fg_Type_pairwise,POMDP_SOLVE_OPTS_Fg_Type_search,POMDP_SOLVE_OPTS_Fg_Type_initial}; return v[k]; }
int vf_purge(int k){ int v[]={purge_none,purge_dom,purge_prune}; return v[k]; }
