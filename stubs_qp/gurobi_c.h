/* Stand-in for Gurobi's C interface (see standin.h; implemented in src/gurobi_standin.cpp) */
#ifndef VERIF_STUB_GUROBI_H
#define VERIF_STUB_GUROBI_H
typedef struct _GRBmodel GRBmodel;
typedef struct _GRBenv GRBenv;
#define GRB_INFINITY 1e100
#define GRB_CONTINUOUS 'C'
#define GRB_EQUAL '='
#define GRB_LESS_EQUAL '<'
#define GRB_DBL_ATTR_LB "LB"
#define GRB_DBL_ATTR_UB "UB"
#define GRB_DBL_ATTR_X "X"
#define GRB_DBL_ATTR_OBJVAL "ObjVal"
#define GRB_INT_ATTR_STATUS "Status"
#define GRB_INT_ATTR_NUMVARS "NumVars"
#define GRB_LOADED 1
#define GRB_OPTIMAL 2
#define GRB_INFEASIBLE 3
#define GRB_INF_OR_UNBD 4
#define GRB_UNBOUNDED 5
#define GRB_ITERATION_LIMIT 7
#define GRB_TIME_LIMIT 9
#define GRB_NUMERIC 12
#define GRB_SUBOPTIMAL 13
int GRBloadenv(GRBenv** env, const char* log);
int GRBsetintparam(GRBenv* env, const char* name, int v);
int GRBnewmodel(GRBenv*, GRBmodel**, const char*, int, double*, double*, double*, char*, char**);
int GRBfreemodel(GRBmodel*);
int GRBaddvar(GRBmodel*, int, int*, double*, double obj, double lb, double ub, char type, const char* name);
int GRBaddconstr(GRBmodel*, int n, int* ind, double* val, char sense, double rhs, const char* name);
int GRBaddqconstr(GRBmodel*, int nl, int* li, double* lv, int nq, int* qr, int* qc, double* qv, char sense, double rhs, const char* name);
int GRBdelvars(GRBmodel*, int n, int* ind);
int GRBdelconstrs(GRBmodel*, int n, int* ind);
int GRBsetdblattrlist(GRBmodel*, const char* a, int n, int* ind, double* v);
int GRBgetdblattrlist(GRBmodel*, const char* a, int n, int* ind, double* v);
int GRBsetdblattrarray(GRBmodel*, const char* a, int first, int n, double* v);
int GRBsetdblattr(GRBmodel*, const char* a, double v);
int GRBgetdblattr(GRBmodel*, const char* a, double* v);
int GRBgetintattr(GRBmodel*, const char* a, int* v);
int GRBdelq(GRBmodel*);
int GRBaddqpterms(GRBmodel*, int n, int* r, int* c, double* v);
int GRBupdatemodel(GRBmodel*);
int GRBoptimize(GRBmodel*);
int GRBcomputeIIS(GRBmodel*);
int GRBfeasrelax(GRBmodel*, int, int, double*, double*, double*, double*);
int GRBwrite(GRBmodel*, const char*);
char* GRBgeterrormsg(GRBenv*);
#endif
