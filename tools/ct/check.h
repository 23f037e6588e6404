#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <assert.h>
extern int ck_fail; extern const char*ck_cur;
#define ck_ff(...) do{ck_fail++;printf("FAIL %s %s:%d ",ck_cur,__FILE__,__LINE__);printf("" __VA_ARGS__);printf("\n");}while(0)
#define ck_assert(c) do{if(!(c))ck_ff(#c);}while(0)
#define ck_assert_msg(c,...) do{if(!(c))ck_ff(__VA_ARGS__);}while(0)
#define ck_assert_int_eq(a,b) ck_assert((a)==(b))
#define ck_assert_uint_eq(a,b) ck_assert((a)==(b))
#define ck_assert_int_ge(a,b) ck_assert((a)>=(b))
#define ck_assert_int_gt(a,b) ck_assert((a)>(b))
#define ck_assert_int_le(a,b) ck_assert((a)<=(b))
#define ck_assert_int_lt(a,b) ck_assert((a)<(b))
#define ck_assert_uint_ge(a,b) ck_assert((a)>=(b))
#define ck_assert_uint_le(a,b) ck_assert((a)<=(b))
#define ck_assert_int_ne(a,b) ck_assert((a)!=(b))
#define ck_assert_uint_ne(a,b) ck_assert((a)!=(b))
#define ck_assert_ptr_nonnull(a) ck_assert((a)!=NULL)
#define ck_assert_ptr_null(a) ck_assert((a)==NULL)
#define ck_assert_ptr_ne(a,b) ck_assert((a)!=(b))
#define ck_assert_ptr_eq(a,b) ck_assert((a)==(b))
#define ck_assert_str_eq(a,b) ck_assert(!strcmp(a,b))
#define ck_assert_double_eq(a,b) ck_assert((a)==(b))
#define ck_assert_float_eq(a,b) ck_assert((a)==(b))
#define ck_assert_double_eq_tol(a,b,t) ck_assert(fabs((a)-(b))<=(t))
#define ck_assert_float_eq_tol(a,b,t) ck_assert(fabs((a)-(b))<=(t))
#define ck_assert_mem_eq(a,b,n) ck_assert(!memcmp(a,b,n))
#define ck_abort_msg(...) ck_ff(__VA_ARGS__)
typedef struct{void(*f)(void);const char*n;}CKT;
typedef struct{CKT t[100];int n;void(*su)(void);void(*td)(void);}TCase;
typedef struct Suite{TCase*t[50];int n;const char*name;}Suite;
typedef struct{Suite*s[10];int n;}SRunner;
#define SWIFT_ATTR_FORMAT_STRING
#define START_TEST(x) static void x(void)
#define END_TEST
static inline TCase*tcase_create(const char*n){return (TCase*)calloc(1,sizeof(TCase));}
static inline Suite*suite_create(const char*n){Suite*s=(Suite*)calloc(1,sizeof(Suite));s->name=n;return s;}
#define tcase_add_test(c,x) ((c)->t[(c)->n].f=x,(c)->t[(c)->n++].n=#x)
#define tcase_add_checked_fixture(c,a,b) ((c)->su=a,(c)->td=b)
#define tcase_set_timeout(a,b)
#define suite_add_tcase(s,c) ((s)->t[(s)->n++]=c)
static inline SRunner*srunner_create(Suite*s){SRunner*r=(SRunner*)calloc(1,sizeof*r);if(s)r->s[r->n++]=s;return r;}
static inline void srunner_add_suite(SRunner*r,Suite*s){r->s[r->n++]=s;}
#define CK_NOFORK 0
#define CK_NORMAL 0
#define CK_VERBOSE 0
#define CK_ENV 0
#define srunner_set_fork_status(a,b)
#define srunner_set_log(a,b)
#define srunner_set_xml(a,b)
#include <unistd.h>
#include <sys/wait.h>
static inline void srunner_run_all(SRunner*r,int m){for(int i=0;i<r->n;i++)for(int j=0;j<r->s[i]->n;j++){TCase*c=r->s[i]->t[j];for(int k=0;k<c->n;k++){fflush(stdout);int p=fork();if(!p){ck_fail=0;ck_cur=c->t[k].n;if(c->su)c->su();c->t[k].f();if(c->td)c->td();if(!ck_fail)printf("ok %s\n",ck_cur);fflush(stdout);_exit(ck_fail?1:0);}int st;waitpid(p,&st,0);if(st){printf("BAD %s st=%x\n",c->t[k].n,st);ck_fail++;}}}}
static inline int srunner_ntests_failed(SRunner*r){return ck_fail;}
#define srunner_free(r)
#define ck_assert_uint_gt(a,b) ck_assert((a)>(b))
#define ck_assert_uint_lt(a,b) ck_assert((a)<(b))
#define ck_assert_double_ge_tol(a,b,t) ck_assert((a)>=(b)-(t))
#define ck_assert_double_le_tol(a,b,t) ck_assert((a)<=(b)+(t))
