// The C side of the model checks: reads, writes and names camera models
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mrcal.h"
static void show(const mrcal_cameramodel_VOID_t* m)
{
    char name[1024];
    if(!mrcal_lensmodel_name(name,sizeof(name),&m->lensmodel)) strcpy(name,"?");
    int N=mrcal_lensmodel_num_params(&m->lensmodel);
    printf("{\"name\":\"%s\",\"imagersize\":[%u,%u],\"rt\":[",name,m->imagersize[0],m->imagersize[1]);
    for(int i=0;i<6;i++) printf("%s%.17g",i?",":"",m->rt_cam_ref[i]);
    printf("],\"intrinsics\":[");
    for(int i=0;i<N;i++) printf("%s%.17g",i?",":"",m->intrinsics[i]);
    printf("]");
}
static char* slurp(const char* fn,long* n)
{
    FILE* f=fopen(fn,"rb"); if(!f) return NULL;
    fseek(f,0,SEEK_END); *n=ftell(f); rewind(f);
    char* s=malloc(*n+1); if(fread(s,1,*n,f)!=(size_t)*n) return NULL;
    s[*n]=0; fclose(f); return s;
}
int main(int argc,char** argv)
{
    if(argc<3) return 9;
    if(!strcmp(argv[1],"read") || !strcmp(argv[1],"write") || !strcmp(argv[1],"strz") || !strcmp(argv[1],"strn"))
    {
        mrcal_cameramodel_VOID_t* m;
        long n=0; char* s=NULL;
        if(!strcmp(argv[1],"strz")) { s=slurp(argv[2],&n); m=mrcal_read_cameramodel_string(s,0); }
        else if(!strcmp(argv[1],"strn"))
        {
            // followed by things that aren't part of the string
            s=slurp(argv[2],&n); s=realloc(s,n+40); memcpy(s+n,"]}garbage{'lensmodel':",23);
            m=mrcal_read_cameramodel_string(s,(int)n);
        }
        else m=mrcal_read_cameramodel_file(argv[2]);
        free(s);
        if(!m) { printf("{\"ok\":0}\n"); return 0; }
        show(m); printf(",\"ok\":1");
        if(!strcmp(argv[1],"write")) printf(",\"written\":%d",(int)mrcal_write_cameramodel_file(argv[3],m));
        printf("}\n");
        mrcal_free_cameramodel(&m);
        return 0;
    }
    if(!strcmp(argv[1],"into"))
    {
        // a buffer with room for exactly N intrinsics, and a guard behind it
        int N=atoi(argv[3]), N0=N;
        size_t sz=sizeof(mrcal_cameramodel_VOID_t)+N*sizeof(double);
        unsigned char* buf=malloc(sz+64); memset(buf,0x5a,sz+64);
        mrcal_cameramodel_VOID_t* m=(mrcal_cameramodel_VOID_t*)buf;
        bool ok=mrcal_read_cameramodel_file_into(m,&N,argv[2]);
        int guard=1; for(int i=0;i<64;i++) if(buf[sz+i]!=0x5a) guard=0;
        if(ok) { show(m); printf(",\"ok\":1,\"N\":%d,\"N0\":%d,\"guard\":%d}\n",N,N0,guard); }
        else printf("{\"ok\":0,\"N\":%d,\"N0\":%d,\"guard\":%d}\n",N,N0,guard);
        return 0;
    }
    if(!strcmp(argv[1],"lens"))
    {
        // one name per line
        long n; char* s=slurp(argv[2],&n);
        for(char* p=s; p<s+n; )
        {
            char* e=strchr(p,'\n'); if(!e) break; *e=0;
            mrcal_lensmodel_t lm;
            bool ok=mrcal_lensmodel_from_name(&lm,p);
            char name[1024]="";
            printf("{\"ok\":%d,\"valid\":%d,\"type\":%d",(int)ok,(int)mrcal_lensmodel_type_is_valid(lm.type),(int)mrcal_lensmodel_type_from_name(p));
            if(ok)
            {
                bool okn=mrcal_lensmodel_name(name,sizeof(name),&lm);
                // the smallest buffer that is large enough, and one too small
                char tight[strlen(name)+1];
                int L=(int)strlen(name);
                bool oktight=mrcal_lensmodel_name(tight,L+1,&lm) && !strcmp(tight,name);
                bool badshort=L<1 ? true : !mrcal_lensmodel_name(tight,L,&lm);
                mrcal_lensmodel_t lm2; bool ok2=mrcal_lensmodel_from_name(&lm2,name);
                printf(",\"typeid\":%d,\"named\":%d,\"name\":\"%s\",\"tight\":%d,\"short\":%d,\"N\":%d,\"again\":%d,\"unconf\":\"%s\"",
                       (int)lm.type,(int)okn,name,(int)oktight,(int)badshort,mrcal_lensmodel_num_params(&lm),
                       (int)(ok2 && 0==memcmp(&lm,&lm2,sizeof(lm))),mrcal_lensmodel_name_unconfigured(&lm));
            }
            else printf(",\"typeid\":%d",(int)lm.type);
            printf("}\n");
            p=e+1;
        }
        return 0;
    }
    return 9;
}
