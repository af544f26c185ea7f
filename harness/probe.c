#include "vf.h"
#include "wdns.h"
#ifndef N
#define N 12
#endif
void vf_main(void){
  size_t len=vf_choose(N+1);
  uint8_t*p=vf_buf(len); size_t off=len?vf_choose(len):0;
  uint8_t dst[255]; size_t sz=0;
  wdns_res r=wdns_unpack_name(p,p+len,p+off,dst,&sz);
  vf_observe(r);
  if(r==wdns_res_success){ vf_assert(sz>=1&&sz<=255,"sz"); vf_witness("ok"); vf_observe(sz); vf_observe_bytes(dst,sz);}
}
