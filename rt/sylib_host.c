#include <stdio.h>
#include <stdlib.h>
int getint(void){int t=0; if(scanf("%d",&t)!=1) {} return t;}
int getch(void){char c=0; if(scanf("%c",&c)!=1){} return c;}
float getfloat(void){float f=0; if(scanf("%a",&f)!=1){} return f;}
int getarray(int*a){int n=0; if(scanf("%d",&n)!=1){} for(int i=0;i<n;i++) if(scanf("%d",a+i)!=1){} return n;}
int getfarray(float*a){int n=0; if(scanf("%d",&n)!=1){} for(int i=0;i<n;i++) if(scanf("%a",a+i)!=1){} return n;}
void putint(int a){printf("%d",a);}
void putch(int a){printf("%c",a);}
void putarray(int n,const int*a){printf("%d:",n); for(int i=0;i<n;i++) printf(" %d",a[i]); printf("\n");}
void putfloat(float a){printf("%a",a);}
void putfarray(int n,const float*a){printf("%d:",n); for(int i=0;i<n;i++) printf(" %a",a[i]); printf("\n");}
void starttime(void){} void stoptime(void){}
