extern "C" void __real_cblas_sgemm(int o, int ta, int tb, int m, int n, int kk, float al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) __asm__("cblas_sgemm");
extern "C" void __wrap_cblas_sgemm(int o, int ta, int tb, int m, int n, int kk, float al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) { K k("cblas_sgemm", PC); k.dims(m,n,kk); int am=ta==111?m:kk, an=ta==111?kk:m, bm=tb==111?kk:n, bn=tb==111?n:kk; k.ld(lda,am); k.ld(ldb,bm); k.ld(ldc,m);
       if (m>0&&n>0) { if ((al != 0)&&kk>0) { k.ge(a,sizeof(float),am,an,lda,0); k.ge(b,sizeof(float),bm,bn,ldb,0); } k.ge(c,sizeof(float),m,n,ldc,1); }
  __real_cblas_sgemm(o, ta, tb, m, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_ssymm(int o, int s, int u, int m, int n, float al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) __asm__("cblas_ssymm");
extern "C" void __wrap_cblas_ssymm(int o, int s, int u, int m, int n, float al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) { K k("cblas_ssymm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m); k.ld(ldc,m);
           if (m>0&&n>0) { if ((al != 0)) { k.tr(a,sizeof(float),na,lda,u,0,0); k.ge(b,sizeof(float),m,n,ldb,0); } k.ge(c,sizeof(float),m,n,ldc,1); }
  __real_cblas_ssymm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_ssyrk(int o, int u, int t, int n, int kk, float al, const void * a, int lda, float be, void * c, int ldc) __asm__("cblas_ssyrk");
extern "C" void __wrap_cblas_ssyrk(int o, int u, int t, int n, int kk, float al, const void * a, int lda, float be, void * c, int ldc) { K k("cblas_ssyrk", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldc,n);
           if (n>0) { if ((al != 0)&&kk>0) k.ge(a,sizeof(float),am,an,lda,0); k.tr(c,sizeof(float),n,ldc,u,0,1); }
  __real_cblas_ssyrk(o, u, t, n, kk, al, a, lda, be, c, ldc);  }
extern "C" void __real_cblas_ssyr2k(int o, int u, int t, int n, int kk, float al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) __asm__("cblas_ssyr2k");
extern "C" void __wrap_cblas_ssyr2k(int o, int u, int t, int n, int kk, float al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) { K k("cblas_ssyr2k", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldb,am); k.ld(ldc,n);
           if (n>0) { if ((al != 0)&&kk>0) { k.ge(a,sizeof(float),am,an,lda,0); k.ge(b,sizeof(float),am,an,ldb,0); } k.tr(c,sizeof(float),n,ldc,u,0,1); }
  __real_cblas_ssyr2k(o, u, t, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_strmm(int o, int s, int u, int t, int d, int m, int n, float al, const void * a, int lda, void * b, int ldb) __asm__("cblas_strmm");
extern "C" void __wrap_cblas_strmm(int o, int s, int u, int t, int d, int m, int n, float al, const void * a, int lda, void * b, int ldb) { K k("cblas_strmm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if ((al != 0)) k.tr(a,sizeof(float),na,lda,u,d==132,0); k.ge(b,sizeof(float),m,n,ldb,1); }
  __real_cblas_strmm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_strsm(int o, int s, int u, int t, int d, int m, int n, float al, const void * a, int lda, void * b, int ldb) __asm__("cblas_strsm");
extern "C" void __wrap_cblas_strsm(int o, int s, int u, int t, int d, int m, int n, float al, const void * a, int lda, void * b, int ldb) { K k("cblas_strsm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if ((al != 0)) k.tr(a,sizeof(float),na,lda,u,d==132,0); k.ge(b,sizeof(float),m,n,ldb,1); }
  __real_cblas_strsm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_sgemv(int o, int t, int m, int n, float al, const void * a, int lda, const void * x, int ix, float be, void * y, int iy) __asm__("cblas_sgemv");
extern "C" void __wrap_cblas_sgemv(int o, int t, int m, int n, float al, const void * a, int lda, const void * x, int ix, float be, void * y, int iy) { K k("cblas_sgemv", PC); k.dims(m,n,0); k.ld(lda,m); int lx=t==111?n:m, ly=t==111?m:n;
       if (m>0&&n>0) { if ((al != 0)) { k.ge(a,sizeof(float),m,n,lda,0); k.ve(x,sizeof(float),lx,ix,0); } k.ve(y,sizeof(float),ly,iy,1); }
  __real_cblas_sgemv(o, t, m, n, al, a, lda, x, ix, be, y, iy);  }
extern "C" void __real_cblas_strmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) __asm__("cblas_strmv");
extern "C" void __wrap_cblas_strmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) { K k("cblas_strmv", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.tr(a,sizeof(float),n,lda,u,d==132,0); k.ve(x,sizeof(float),n,ix,1); }
  __real_cblas_strmv(o, u, t, d, n, a, lda, x, ix);  }
extern "C" void __real_cblas_sger(int o, int m, int n, float al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_sger");
extern "C" void __wrap_cblas_sger(int o, int m, int n, float al, const void * x, int ix, const void * y, int iy, void * a, int lda) { K k("cblas_sger", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0&&(al != 0)) { k.ve(x,sizeof(float),m,ix,0); k.ve(y,sizeof(float),n,iy,0); k.ge(a,sizeof(float),m,n,lda,1); }
  __real_cblas_sger(o, m, n, al, x, ix, y, iy, a, lda);  }
extern "C" void __real_cblas_saxpy(int n, float al, const void * x, int ix, void * y, int iy) __asm__("cblas_saxpy");
extern "C" void __wrap_cblas_saxpy(int n, float al, const void * x, int ix, void * y, int iy) { K k("cblas_saxpy", PC); if (n>0&&(al != 0)) { k.ve(x,sizeof(float),n,ix,0); k.ve(y,sizeof(float),n,iy,1); }
  __real_cblas_saxpy(n, al, x, ix, y, iy);  }
extern "C" void __real_cblas_scopy(int n, const void * x, int ix, void * y, int iy) __asm__("cblas_scopy");
extern "C" void __wrap_cblas_scopy(int n, const void * x, int ix, void * y, int iy) { K k("cblas_scopy", PC); k.ve(x,sizeof(float),n,ix,0); k.ve(y,sizeof(float),n,iy,1);
  __real_cblas_scopy(n, x, ix, y, iy);  }
extern "C" void __real_cblas_sswap(int n, void * x, int ix, void * y, int iy) __asm__("cblas_sswap");
extern "C" void __wrap_cblas_sswap(int n, void * x, int ix, void * y, int iy) { K k("cblas_sswap", PC); k.ve(x,sizeof(float),n,ix,1); k.ve(y,sizeof(float),n,iy,1);
  __real_cblas_sswap(n, x, ix, y, iy);  }
extern "C" void __real_cblas_sscal(int n, float al, void * x, int ix) __asm__("cblas_sscal");
extern "C" void __wrap_cblas_sscal(int n, float al, void * x, int ix) { K k("cblas_sscal", PC); k.ve(x,sizeof(float),n,ix,1);
  __real_cblas_sscal(n, al, x, ix);  }
extern "C" int __real_LAPACKE_sgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_sgeqr2_work");
extern "C" int __wrap_LAPACKE_sgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_sgeqr2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(float),m,n,lda,1); k.ve(tau,sizeof(float),m<n?m:n,1,1); k.ve(wk,sizeof(float),n,1,1); }
  int r_ = __real_LAPACKE_sgeqr2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_sgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_sgelq2_work");
extern "C" int __wrap_LAPACKE_sgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_sgelq2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(float),m,n,lda,1); k.ve(tau,sizeof(float),m<n?m:n,1,1); k.ve(wk,sizeof(float),m,1,1); }
  int r_ = __real_LAPACKE_sgelq2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_ssygst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) __asm__("LAPACKE_ssygst_work");
extern "C" int __wrap_LAPACKE_ssygst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) { K k("LAPACKE_ssygst_work", PC); k.dims(n,0,0); k.ld(lda,n); k.ld(ldb,n); if (n>0) { k.trc(a,sizeof(float),n,lda,u,0,1); k.trc(b,sizeof(float),n,ldb,u,0,0); }
  int r_ = __real_LAPACKE_ssygst_work(o, it, u, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_slacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_slacpy_work");
extern "C" int __wrap_LAPACKE_slacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_slacpy_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.tz(a,sizeof(float),m,n,lda,u,0,0); k.tz(b,sizeof(float),m,n,ldb,u,0,1);
  int r_ = __real_LAPACKE_slacpy_work(o, u, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_slaset_work(int o, char u, int m, int n, float al, float be, void * a, int lda) __asm__("LAPACKE_slaset_work");
extern "C" int __wrap_LAPACKE_slaset_work(int o, char u, int m, int n, float al, float be, void * a, int lda) { K k("LAPACKE_slaset_work", PC); k.dims(m,n,0); k.ld(lda,m); k.tz(a,sizeof(float),m,n,lda,u,0,1);
  int r_ = __real_LAPACKE_slaset_work(o, u, m, n, al, be, a, lda); k.ret(r_); return r_; }
extern "C" float __real_LAPACKE_slange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_slange_work");
extern "C" float __wrap_LAPACKE_slange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) { K k("LAPACKE_slange_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ge(a,sizeof(float),m,n,lda,0); if ((nm|32)=='i'&&m>0&&n>0) k.ve(wk,sizeof(float),m,1,1);
  float r_ = __real_LAPACKE_slange_work(o, nm, m, n, a, lda, wk);  return r_; }
extern "C" float __real_LAPACKE_slansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_slansy_work");
extern "C" float __wrap_LAPACKE_slansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) { K k("LAPACKE_slansy_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.trc(a,sizeof(float),n,lda,u,0,0); int c_=nm|32; if (c_=='i'||c_=='o'||c_=='1') k.ve(wk,sizeof(float),n,1,1); }
  float r_ = __real_LAPACKE_slansy_work(o, nm, u, n, a, lda, wk);  return r_; }
extern "C" int __real_LAPACKE_slarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) __asm__("LAPACKE_slarfb_work");
extern "C" int __wrap_LAPACKE_slarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) { K k("LAPACKE_slarfb_work", PC); k.dims(m,n,kk); int q=(s|32)=='l'?m:n, r=(s|32)=='l'?n:m; k.ld(ldc,m); k.ld(ldt,kk); k.ld(ldw,r); k.ld(ldv,(sv|32)=='c'?q:kk);
       if (m>0&&n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(float),q,kk,ldv,'L',1,0); else k.tz(v,sizeof(float),kk,q,ldv,'U',1,0); }
       k.trc(tt,sizeof(float),kk,ldt,(d|32)=='f'?'U':'L',0,0); k.ge(c,sizeof(float),m,n,ldc,1); k.ge(wk,sizeof(float),r,kk,ldw,1); }
  int r_ = __real_LAPACKE_slarfb_work(o, s, t, d, sv, m, n, kk, v, ldv, tt, ldt, c, ldc, wk, ldw); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_slarfg_work(int n, void * al, void * x, int ix, void * tau) __asm__("LAPACKE_slarfg_work");
extern "C" int __wrap_LAPACKE_slarfg_work(int n, void * al, void * x, int ix, void * tau) { K k("LAPACKE_slarfg_work", PC); if (n>0) { k.ve(al,sizeof(float),1,1,1); k.ve(x,sizeof(float),n-1,ix,1); } k.ve(tau,sizeof(float),1,1,1);
  int r_ = __real_LAPACKE_slarfg_work(n, al, x, ix, tau); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_slarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) __asm__("LAPACKE_slarft_work");
extern "C" int __wrap_LAPACKE_slarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) { K k("LAPACKE_slarft_work", PC); k.dims(n,kk,0); k.ld(ldt,kk); k.ld(ldv,(sv|32)=='c'?n:kk);
       if (n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(float),n,kk,ldv,'L',1,0); else k.tz(v,sizeof(float),kk,n,ldv,'U',1,0); }
       k.ve(tau,sizeof(float),kk,1,0); k.trc(tt,sizeof(float),kk,ldt,(d|32)=='f'?'U':'L',0,1); }
  int r_ = __real_LAPACKE_slarft_work(o, d, sv, n, kk, v, ldv, tau, tt, ldt); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_slarfx_work(int o, char s, int m, int n, const void * v, float tau, void * c, int ldc, void * wk) __asm__("LAPACKE_slarfx_work");
extern "C" int __wrap_LAPACKE_slarfx_work(int o, char s, int m, int n, const void * v, float tau, void * c, int ldc, void * wk) { K k("LAPACKE_slarfx_work", PC); k.dims(m,n,0); k.ld(ldc,m); if (m>0&&n>0&&tau!=(float)0) { k.ve(v,sizeof(float),(s|32)=='l'?m:n,1,0); k.ge(c,sizeof(float),m,n,ldc,1); if (((s|32)=='l'?m:n)>10) k.ve(wk,sizeof(float),(s|32)=='l'?n:m,1,1); }
  int r_ = __real_LAPACKE_slarfx_work(o, s, m, n, v, tau, c, ldc, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_slauum_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_slauum_work");
extern "C" int __wrap_LAPACKE_slauum_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_slauum_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(float),n,lda,u,0,1);
  int r_ = __real_LAPACKE_slauum_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_spotrf_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_spotrf_work");
extern "C" int __wrap_LAPACKE_spotrf_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_spotrf_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(float),n,lda,u,0,1);
  int r_ = __real_LAPACKE_spotrf_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_strtri_work(int o, char u, char d, int n, void * a, int lda) __asm__("LAPACKE_strtri_work");
extern "C" int __wrap_LAPACKE_strtri_work(int o, char u, char d, int n, void * a, int lda) { K k("LAPACKE_strtri_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(float),n,lda,u,(d|32)=='u',1);
  int r_ = __real_LAPACKE_strtri_work(o, u, d, n, a, lda); k.ret(r_); return r_; }
extern "C" float __real_LAPACKE_slamch_work(char c) __asm__("LAPACKE_slamch_work");
extern "C" float __wrap_LAPACKE_slamch_work(char c) { K k("LAPACKE_slamch_work", PC); 
  float r_ = __real_LAPACKE_slamch_work(c);  return r_; }
extern "C" int __real_LAPACKE_sstein_work(int o, int n, const void * dd, const void * e, int m, const void * ww, const void * ib, const void * is, void * z, int ldz, void * wk, void * iw, void * ifl) __asm__("LAPACKE_sstein_work");
extern "C" int __wrap_LAPACKE_sstein_work(int o, int n, const void * dd, const void * e, int m, const void * ww, const void * ib, const void * is, void * z, int ldz, void * wk, void * iw, void * ifl) { K k("LAPACKE_sstein_work", PC); k.dims(n,m,0); k.ld(ldz,n); if (n>0&&m>0) { k.ve(dd,sizeof(float),n,1,0); k.ve(e,sizeof(float),n-1,1,0); k.ve(ww,sizeof(float),m,1,0); k.ve(ib,4,m,1,0); k.ge(z,sizeof(float),n,m,ldz,1); k.ve(wk,sizeof(float),5*n,1,1); k.ve(iw,4,n,1,1); k.ve(ifl,4,m,1,1); }
  int r_ = __real_LAPACKE_sstein_work(o, n, dd, e, m, ww, ib, is, z, ldz, wk, iw, ifl); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_sbdsdc(int o, char u, char cq, int n, void * dd, void * e, void * uu, int ldu, void * vt, int ldvt, void * q, void * iq) __asm__("LAPACKE_sbdsdc");
extern "C" int __wrap_LAPACKE_sbdsdc(int o, char u, char cq, int n, void * dd, void * e, void * uu, int ldu, void * vt, int ldvt, void * q, void * iq) { K k("LAPACKE_sbdsdc", PC); k.dims(n,0,0); if (n>0) { k.ve(dd,sizeof(float),n,1,1); k.ve(e,sizeof(float),n-1,1,1); if ((cq|32)=='i') { k.ge(uu,sizeof(float),n,n,ldu,1); k.ge(vt,sizeof(float),n,n,ldvt,1); } }
  int r_ = __real_LAPACKE_sbdsdc(o, u, cq, n, dd, e, uu, ldu, vt, ldvt, q, iq);  return r_; }
extern "C" float __real_slantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) __asm__("slantr_");
extern "C" float __wrap_slantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) { K k("slantr_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); k.tz(a,sizeof(float),*m,*n,*lda,*u,(*d|32)=='u',0); if ((*nm|32)=='i'&&*m>0&&*n>0) k.ve(wk,sizeof(float),*m,1,1);
  float r_ = __real_slantr_(nm, u, d, m, n, a, lda, wk, l1, l2, l3);  return r_; }
extern "C" void __real_slascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) __asm__("slascl_");
extern "C" void __wrap_slascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) { K k("slascl_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); { int c_=*t|32; if (c_=='g'||c_=='l'||c_=='u') k.tz(a,sizeof(float),*m,*n,*lda,c_=='g'?'G':c_=='l'?'L':'U',0,1); }
  __real_slascl_(t, kl, ku, cf, ct, m, n, a, lda, info, l1); k.ret(*info); }
extern "C" void __real_slassq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) __asm__("slassq_");
extern "C" void __wrap_slassq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) { K k("slassq_", PC); if (*n>0) k.ve(x,sizeof(float),*n,*ix,0); k.ve(scl,sizeof(float),1,1,1); k.ve(ssq,sizeof(float),1,1,1);
  __real_slassq_(n, x, ix, scl, ssq);  }
extern "C" void __real_cblas_dgemm(int o, int ta, int tb, int m, int n, int kk, double al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) __asm__("cblas_dgemm");
extern "C" void __wrap_cblas_dgemm(int o, int ta, int tb, int m, int n, int kk, double al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) { K k("cblas_dgemm", PC); k.dims(m,n,kk); int am=ta==111?m:kk, an=ta==111?kk:m, bm=tb==111?kk:n, bn=tb==111?n:kk; k.ld(lda,am); k.ld(ldb,bm); k.ld(ldc,m);
       if (m>0&&n>0) { if ((al != 0)&&kk>0) { k.ge(a,sizeof(double),am,an,lda,0); k.ge(b,sizeof(double),bm,bn,ldb,0); } k.ge(c,sizeof(double),m,n,ldc,1); }
  __real_cblas_dgemm(o, ta, tb, m, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_dsymm(int o, int s, int u, int m, int n, double al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) __asm__("cblas_dsymm");
extern "C" void __wrap_cblas_dsymm(int o, int s, int u, int m, int n, double al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) { K k("cblas_dsymm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m); k.ld(ldc,m);
           if (m>0&&n>0) { if ((al != 0)) { k.tr(a,sizeof(double),na,lda,u,0,0); k.ge(b,sizeof(double),m,n,ldb,0); } k.ge(c,sizeof(double),m,n,ldc,1); }
  __real_cblas_dsymm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_dsyrk(int o, int u, int t, int n, int kk, double al, const void * a, int lda, double be, void * c, int ldc) __asm__("cblas_dsyrk");
extern "C" void __wrap_cblas_dsyrk(int o, int u, int t, int n, int kk, double al, const void * a, int lda, double be, void * c, int ldc) { K k("cblas_dsyrk", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldc,n);
           if (n>0) { if ((al != 0)&&kk>0) k.ge(a,sizeof(double),am,an,lda,0); k.tr(c,sizeof(double),n,ldc,u,0,1); }
  __real_cblas_dsyrk(o, u, t, n, kk, al, a, lda, be, c, ldc);  }
extern "C" void __real_cblas_dsyr2k(int o, int u, int t, int n, int kk, double al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) __asm__("cblas_dsyr2k");
extern "C" void __wrap_cblas_dsyr2k(int o, int u, int t, int n, int kk, double al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) { K k("cblas_dsyr2k", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldb,am); k.ld(ldc,n);
           if (n>0) { if ((al != 0)&&kk>0) { k.ge(a,sizeof(double),am,an,lda,0); k.ge(b,sizeof(double),am,an,ldb,0); } k.tr(c,sizeof(double),n,ldc,u,0,1); }
  __real_cblas_dsyr2k(o, u, t, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_dtrmm(int o, int s, int u, int t, int d, int m, int n, double al, const void * a, int lda, void * b, int ldb) __asm__("cblas_dtrmm");
extern "C" void __wrap_cblas_dtrmm(int o, int s, int u, int t, int d, int m, int n, double al, const void * a, int lda, void * b, int ldb) { K k("cblas_dtrmm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if ((al != 0)) k.tr(a,sizeof(double),na,lda,u,d==132,0); k.ge(b,sizeof(double),m,n,ldb,1); }
  __real_cblas_dtrmm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_dtrsm(int o, int s, int u, int t, int d, int m, int n, double al, const void * a, int lda, void * b, int ldb) __asm__("cblas_dtrsm");
extern "C" void __wrap_cblas_dtrsm(int o, int s, int u, int t, int d, int m, int n, double al, const void * a, int lda, void * b, int ldb) { K k("cblas_dtrsm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if ((al != 0)) k.tr(a,sizeof(double),na,lda,u,d==132,0); k.ge(b,sizeof(double),m,n,ldb,1); }
  __real_cblas_dtrsm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_dgemv(int o, int t, int m, int n, double al, const void * a, int lda, const void * x, int ix, double be, void * y, int iy) __asm__("cblas_dgemv");
extern "C" void __wrap_cblas_dgemv(int o, int t, int m, int n, double al, const void * a, int lda, const void * x, int ix, double be, void * y, int iy) { K k("cblas_dgemv", PC); k.dims(m,n,0); k.ld(lda,m); int lx=t==111?n:m, ly=t==111?m:n;
       if (m>0&&n>0) { if ((al != 0)) { k.ge(a,sizeof(double),m,n,lda,0); k.ve(x,sizeof(double),lx,ix,0); } k.ve(y,sizeof(double),ly,iy,1); }
  __real_cblas_dgemv(o, t, m, n, al, a, lda, x, ix, be, y, iy);  }
extern "C" void __real_cblas_dtrmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) __asm__("cblas_dtrmv");
extern "C" void __wrap_cblas_dtrmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) { K k("cblas_dtrmv", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.tr(a,sizeof(double),n,lda,u,d==132,0); k.ve(x,sizeof(double),n,ix,1); }
  __real_cblas_dtrmv(o, u, t, d, n, a, lda, x, ix);  }
extern "C" void __real_cblas_dger(int o, int m, int n, double al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_dger");
extern "C" void __wrap_cblas_dger(int o, int m, int n, double al, const void * x, int ix, const void * y, int iy, void * a, int lda) { K k("cblas_dger", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0&&(al != 0)) { k.ve(x,sizeof(double),m,ix,0); k.ve(y,sizeof(double),n,iy,0); k.ge(a,sizeof(double),m,n,lda,1); }
  __real_cblas_dger(o, m, n, al, x, ix, y, iy, a, lda);  }
extern "C" void __real_cblas_daxpy(int n, double al, const void * x, int ix, void * y, int iy) __asm__("cblas_daxpy");
extern "C" void __wrap_cblas_daxpy(int n, double al, const void * x, int ix, void * y, int iy) { K k("cblas_daxpy", PC); if (n>0&&(al != 0)) { k.ve(x,sizeof(double),n,ix,0); k.ve(y,sizeof(double),n,iy,1); }
  __real_cblas_daxpy(n, al, x, ix, y, iy);  }
extern "C" void __real_cblas_dcopy(int n, const void * x, int ix, void * y, int iy) __asm__("cblas_dcopy");
extern "C" void __wrap_cblas_dcopy(int n, const void * x, int ix, void * y, int iy) { K k("cblas_dcopy", PC); k.ve(x,sizeof(double),n,ix,0); k.ve(y,sizeof(double),n,iy,1);
  __real_cblas_dcopy(n, x, ix, y, iy);  }
extern "C" void __real_cblas_dswap(int n, void * x, int ix, void * y, int iy) __asm__("cblas_dswap");
extern "C" void __wrap_cblas_dswap(int n, void * x, int ix, void * y, int iy) { K k("cblas_dswap", PC); k.ve(x,sizeof(double),n,ix,1); k.ve(y,sizeof(double),n,iy,1);
  __real_cblas_dswap(n, x, ix, y, iy);  }
extern "C" void __real_cblas_dscal(int n, double al, void * x, int ix) __asm__("cblas_dscal");
extern "C" void __wrap_cblas_dscal(int n, double al, void * x, int ix) { K k("cblas_dscal", PC); k.ve(x,sizeof(double),n,ix,1);
  __real_cblas_dscal(n, al, x, ix);  }
extern "C" int __real_LAPACKE_dgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_dgeqr2_work");
extern "C" int __wrap_LAPACKE_dgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_dgeqr2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(double),m,n,lda,1); k.ve(tau,sizeof(double),m<n?m:n,1,1); k.ve(wk,sizeof(double),n,1,1); }
  int r_ = __real_LAPACKE_dgeqr2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_dgelq2_work");
extern "C" int __wrap_LAPACKE_dgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_dgelq2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(double),m,n,lda,1); k.ve(tau,sizeof(double),m<n?m:n,1,1); k.ve(wk,sizeof(double),m,1,1); }
  int r_ = __real_LAPACKE_dgelq2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dsygst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) __asm__("LAPACKE_dsygst_work");
extern "C" int __wrap_LAPACKE_dsygst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) { K k("LAPACKE_dsygst_work", PC); k.dims(n,0,0); k.ld(lda,n); k.ld(ldb,n); if (n>0) { k.trc(a,sizeof(double),n,lda,u,0,1); k.trc(b,sizeof(double),n,ldb,u,0,0); }
  int r_ = __real_LAPACKE_dsygst_work(o, it, u, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dlacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_dlacpy_work");
extern "C" int __wrap_LAPACKE_dlacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_dlacpy_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.tz(a,sizeof(double),m,n,lda,u,0,0); k.tz(b,sizeof(double),m,n,ldb,u,0,1);
  int r_ = __real_LAPACKE_dlacpy_work(o, u, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dlaset_work(int o, char u, int m, int n, double al, double be, void * a, int lda) __asm__("LAPACKE_dlaset_work");
extern "C" int __wrap_LAPACKE_dlaset_work(int o, char u, int m, int n, double al, double be, void * a, int lda) { K k("LAPACKE_dlaset_work", PC); k.dims(m,n,0); k.ld(lda,m); k.tz(a,sizeof(double),m,n,lda,u,0,1);
  int r_ = __real_LAPACKE_dlaset_work(o, u, m, n, al, be, a, lda); k.ret(r_); return r_; }
extern "C" double __real_LAPACKE_dlange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_dlange_work");
extern "C" double __wrap_LAPACKE_dlange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) { K k("LAPACKE_dlange_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ge(a,sizeof(double),m,n,lda,0); if ((nm|32)=='i'&&m>0&&n>0) k.ve(wk,sizeof(double),m,1,1);
  double r_ = __real_LAPACKE_dlange_work(o, nm, m, n, a, lda, wk);  return r_; }
extern "C" double __real_LAPACKE_dlansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_dlansy_work");
extern "C" double __wrap_LAPACKE_dlansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) { K k("LAPACKE_dlansy_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.trc(a,sizeof(double),n,lda,u,0,0); int c_=nm|32; if (c_=='i'||c_=='o'||c_=='1') k.ve(wk,sizeof(double),n,1,1); }
  double r_ = __real_LAPACKE_dlansy_work(o, nm, u, n, a, lda, wk);  return r_; }
extern "C" int __real_LAPACKE_dlarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) __asm__("LAPACKE_dlarfb_work");
extern "C" int __wrap_LAPACKE_dlarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) { K k("LAPACKE_dlarfb_work", PC); k.dims(m,n,kk); int q=(s|32)=='l'?m:n, r=(s|32)=='l'?n:m; k.ld(ldc,m); k.ld(ldt,kk); k.ld(ldw,r); k.ld(ldv,(sv|32)=='c'?q:kk);
       if (m>0&&n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(double),q,kk,ldv,'L',1,0); else k.tz(v,sizeof(double),kk,q,ldv,'U',1,0); }
       k.trc(tt,sizeof(double),kk,ldt,(d|32)=='f'?'U':'L',0,0); k.ge(c,sizeof(double),m,n,ldc,1); k.ge(wk,sizeof(double),r,kk,ldw,1); }
  int r_ = __real_LAPACKE_dlarfb_work(o, s, t, d, sv, m, n, kk, v, ldv, tt, ldt, c, ldc, wk, ldw); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dlarfg_work(int n, void * al, void * x, int ix, void * tau) __asm__("LAPACKE_dlarfg_work");
extern "C" int __wrap_LAPACKE_dlarfg_work(int n, void * al, void * x, int ix, void * tau) { K k("LAPACKE_dlarfg_work", PC); if (n>0) { k.ve(al,sizeof(double),1,1,1); k.ve(x,sizeof(double),n-1,ix,1); } k.ve(tau,sizeof(double),1,1,1);
  int r_ = __real_LAPACKE_dlarfg_work(n, al, x, ix, tau); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dlarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) __asm__("LAPACKE_dlarft_work");
extern "C" int __wrap_LAPACKE_dlarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) { K k("LAPACKE_dlarft_work", PC); k.dims(n,kk,0); k.ld(ldt,kk); k.ld(ldv,(sv|32)=='c'?n:kk);
       if (n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(double),n,kk,ldv,'L',1,0); else k.tz(v,sizeof(double),kk,n,ldv,'U',1,0); }
       k.ve(tau,sizeof(double),kk,1,0); k.trc(tt,sizeof(double),kk,ldt,(d|32)=='f'?'U':'L',0,1); }
  int r_ = __real_LAPACKE_dlarft_work(o, d, sv, n, kk, v, ldv, tau, tt, ldt); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dlarfx_work(int o, char s, int m, int n, const void * v, double tau, void * c, int ldc, void * wk) __asm__("LAPACKE_dlarfx_work");
extern "C" int __wrap_LAPACKE_dlarfx_work(int o, char s, int m, int n, const void * v, double tau, void * c, int ldc, void * wk) { K k("LAPACKE_dlarfx_work", PC); k.dims(m,n,0); k.ld(ldc,m); if (m>0&&n>0&&tau!=(double)0) { k.ve(v,sizeof(double),(s|32)=='l'?m:n,1,0); k.ge(c,sizeof(double),m,n,ldc,1); if (((s|32)=='l'?m:n)>10) k.ve(wk,sizeof(double),(s|32)=='l'?n:m,1,1); }
  int r_ = __real_LAPACKE_dlarfx_work(o, s, m, n, v, tau, c, ldc, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dlauum_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_dlauum_work");
extern "C" int __wrap_LAPACKE_dlauum_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_dlauum_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(double),n,lda,u,0,1);
  int r_ = __real_LAPACKE_dlauum_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dpotrf_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_dpotrf_work");
extern "C" int __wrap_LAPACKE_dpotrf_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_dpotrf_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(double),n,lda,u,0,1);
  int r_ = __real_LAPACKE_dpotrf_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dtrtri_work(int o, char u, char d, int n, void * a, int lda) __asm__("LAPACKE_dtrtri_work");
extern "C" int __wrap_LAPACKE_dtrtri_work(int o, char u, char d, int n, void * a, int lda) { K k("LAPACKE_dtrtri_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(double),n,lda,u,(d|32)=='u',1);
  int r_ = __real_LAPACKE_dtrtri_work(o, u, d, n, a, lda); k.ret(r_); return r_; }
extern "C" double __real_LAPACKE_dlamch_work(char c) __asm__("LAPACKE_dlamch_work");
extern "C" double __wrap_LAPACKE_dlamch_work(char c) { K k("LAPACKE_dlamch_work", PC); 
  double r_ = __real_LAPACKE_dlamch_work(c);  return r_; }
extern "C" int __real_LAPACKE_dstein_work(int o, int n, const void * dd, const void * e, int m, const void * ww, const void * ib, const void * is, void * z, int ldz, void * wk, void * iw, void * ifl) __asm__("LAPACKE_dstein_work");
extern "C" int __wrap_LAPACKE_dstein_work(int o, int n, const void * dd, const void * e, int m, const void * ww, const void * ib, const void * is, void * z, int ldz, void * wk, void * iw, void * ifl) { K k("LAPACKE_dstein_work", PC); k.dims(n,m,0); k.ld(ldz,n); if (n>0&&m>0) { k.ve(dd,sizeof(double),n,1,0); k.ve(e,sizeof(double),n-1,1,0); k.ve(ww,sizeof(double),m,1,0); k.ve(ib,4,m,1,0); k.ge(z,sizeof(double),n,m,ldz,1); k.ve(wk,sizeof(double),5*n,1,1); k.ve(iw,4,n,1,1); k.ve(ifl,4,m,1,1); }
  int r_ = __real_LAPACKE_dstein_work(o, n, dd, e, m, ww, ib, is, z, ldz, wk, iw, ifl); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_dbdsdc(int o, char u, char cq, int n, void * dd, void * e, void * uu, int ldu, void * vt, int ldvt, void * q, void * iq) __asm__("LAPACKE_dbdsdc");
extern "C" int __wrap_LAPACKE_dbdsdc(int o, char u, char cq, int n, void * dd, void * e, void * uu, int ldu, void * vt, int ldvt, void * q, void * iq) { K k("LAPACKE_dbdsdc", PC); k.dims(n,0,0); if (n>0) { k.ve(dd,sizeof(double),n,1,1); k.ve(e,sizeof(double),n-1,1,1); if ((cq|32)=='i') { k.ge(uu,sizeof(double),n,n,ldu,1); k.ge(vt,sizeof(double),n,n,ldvt,1); } }
  int r_ = __real_LAPACKE_dbdsdc(o, u, cq, n, dd, e, uu, ldu, vt, ldvt, q, iq);  return r_; }
extern "C" double __real_dlantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) __asm__("dlantr_");
extern "C" double __wrap_dlantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) { K k("dlantr_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); k.tz(a,sizeof(double),*m,*n,*lda,*u,(*d|32)=='u',0); if ((*nm|32)=='i'&&*m>0&&*n>0) k.ve(wk,sizeof(double),*m,1,1);
  double r_ = __real_dlantr_(nm, u, d, m, n, a, lda, wk, l1, l2, l3);  return r_; }
extern "C" void __real_dlascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) __asm__("dlascl_");
extern "C" void __wrap_dlascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) { K k("dlascl_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); { int c_=*t|32; if (c_=='g'||c_=='l'||c_=='u') k.tz(a,sizeof(double),*m,*n,*lda,c_=='g'?'G':c_=='l'?'L':'U',0,1); }
  __real_dlascl_(t, kl, ku, cf, ct, m, n, a, lda, info, l1); k.ret(*info); }
extern "C" void __real_dlassq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) __asm__("dlassq_");
extern "C" void __wrap_dlassq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) { K k("dlassq_", PC); if (*n>0) k.ve(x,sizeof(double),*n,*ix,0); k.ve(scl,sizeof(double),1,1,1); k.ve(ssq,sizeof(double),1,1,1);
  __real_dlassq_(n, x, ix, scl, ssq);  }
extern "C" void __real_cblas_cgemm(int o, int ta, int tb, int m, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_cgemm");
extern "C" void __wrap_cblas_cgemm(int o, int ta, int tb, int m, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_cgemm", PC); k.dims(m,n,kk); int am=ta==111?m:kk, an=ta==111?kk:m, bm=tb==111?kk:n, bn=tb==111?n:kk; k.ld(lda,am); k.ld(ldb,bm); k.ld(ldc,m);
       if (m>0&&n>0) { if (nz<fc>(al)&&kk>0) { k.ge(a,sizeof(fc),am,an,lda,0); k.ge(b,sizeof(fc),bm,bn,ldb,0); } k.ge(c,sizeof(fc),m,n,ldc,1); }
  __real_cblas_cgemm(o, ta, tb, m, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_csymm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_csymm");
extern "C" void __wrap_cblas_csymm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_csymm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m); k.ld(ldc,m);
           if (m>0&&n>0) { if (nz<fc>(al)) { k.tr(a,sizeof(fc),na,lda,u,0,0); k.ge(b,sizeof(fc),m,n,ldb,0); } k.ge(c,sizeof(fc),m,n,ldc,1); }
  __real_cblas_csymm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_chemm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_chemm");
extern "C" void __wrap_cblas_chemm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_chemm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m); k.ld(ldc,m);
           if (m>0&&n>0) { if (nz<fc>(al)) { k.tr(a,sizeof(fc),na,lda,u,0,0); k.ge(b,sizeof(fc),m,n,ldb,0); } k.ge(c,sizeof(fc),m,n,ldc,1); }
  __real_cblas_chemm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_csyrk(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * be, void * c, int ldc) __asm__("cblas_csyrk");
extern "C" void __wrap_cblas_csyrk(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * be, void * c, int ldc) { K k("cblas_csyrk", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldc,n);
           if (n>0) { if (nz<fc>(al)&&kk>0) k.ge(a,sizeof(fc),am,an,lda,0); k.tr(c,sizeof(fc),n,ldc,u,0,1); }
  __real_cblas_csyrk(o, u, t, n, kk, al, a, lda, be, c, ldc);  }
extern "C" void __real_cblas_cherk(int o, int u, int t, int n, int kk, float al, const void * a, int lda, float be, void * c, int ldc) __asm__("cblas_cherk");
extern "C" void __wrap_cblas_cherk(int o, int u, int t, int n, int kk, float al, const void * a, int lda, float be, void * c, int ldc) { K k("cblas_cherk", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldc,n);
           if (n>0) { if ((al != 0)&&kk>0) k.ge(a,sizeof(fc),am,an,lda,0); k.tr(c,sizeof(fc),n,ldc,u,0,1); }
  __real_cblas_cherk(o, u, t, n, kk, al, a, lda, be, c, ldc);  }
extern "C" void __real_cblas_csyr2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_csyr2k");
extern "C" void __wrap_cblas_csyr2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_csyr2k", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldb,am); k.ld(ldc,n);
           if (n>0) { if (nz<fc>(al)&&kk>0) { k.ge(a,sizeof(fc),am,an,lda,0); k.ge(b,sizeof(fc),am,an,ldb,0); } k.tr(c,sizeof(fc),n,ldc,u,0,1); }
  __real_cblas_csyr2k(o, u, t, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_cher2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) __asm__("cblas_cher2k");
extern "C" void __wrap_cblas_cher2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, float be, void * c, int ldc) { K k("cblas_cher2k", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldb,am); k.ld(ldc,n);
           if (n>0) { if (nz<fc>(al)&&kk>0) { k.ge(a,sizeof(fc),am,an,lda,0); k.ge(b,sizeof(fc),am,an,ldb,0); } k.tr(c,sizeof(fc),n,ldc,u,0,1); }
  __real_cblas_cher2k(o, u, t, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_ctrmm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ctrmm");
extern "C" void __wrap_cblas_ctrmm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) { K k("cblas_ctrmm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if (nz<fc>(al)) k.tr(a,sizeof(fc),na,lda,u,d==132,0); k.ge(b,sizeof(fc),m,n,ldb,1); }
  __real_cblas_ctrmm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_ctrsm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ctrsm");
extern "C" void __wrap_cblas_ctrsm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) { K k("cblas_ctrsm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if (nz<fc>(al)) k.tr(a,sizeof(fc),na,lda,u,d==132,0); k.ge(b,sizeof(fc),m,n,ldb,1); }
  __real_cblas_ctrsm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_cgemv(int o, int t, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) __asm__("cblas_cgemv");
extern "C" void __wrap_cblas_cgemv(int o, int t, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) { K k("cblas_cgemv", PC); k.dims(m,n,0); k.ld(lda,m); int lx=t==111?n:m, ly=t==111?m:n;
       if (m>0&&n>0) { if (nz<fc>(al)) { k.ge(a,sizeof(fc),m,n,lda,0); k.ve(x,sizeof(fc),lx,ix,0); } k.ve(y,sizeof(fc),ly,iy,1); }
  __real_cblas_cgemv(o, t, m, n, al, a, lda, x, ix, be, y, iy);  }
extern "C" void __real_cblas_ctrmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) __asm__("cblas_ctrmv");
extern "C" void __wrap_cblas_ctrmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) { K k("cblas_ctrmv", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.tr(a,sizeof(fc),n,lda,u,d==132,0); k.ve(x,sizeof(fc),n,ix,1); }
  __real_cblas_ctrmv(o, u, t, d, n, a, lda, x, ix);  }
extern "C" void __real_cblas_cgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_cgerc");
extern "C" void __wrap_cblas_cgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) { K k("cblas_cgerc", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0&&nz<fc>(al)) { k.ve(x,sizeof(fc),m,ix,0); k.ve(y,sizeof(fc),n,iy,0); k.ge(a,sizeof(fc),m,n,lda,1); }
  __real_cblas_cgerc(o, m, n, al, x, ix, y, iy, a, lda);  }
extern "C" void __real_cblas_cgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_cgeru");
extern "C" void __wrap_cblas_cgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) { K k("cblas_cgeru", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0&&nz<fc>(al)) { k.ve(x,sizeof(fc),m,ix,0); k.ve(y,sizeof(fc),n,iy,0); k.ge(a,sizeof(fc),m,n,lda,1); }
  __real_cblas_cgeru(o, m, n, al, x, ix, y, iy, a, lda);  }
extern "C" void __real_cblas_caxpy(int n, const void * al, const void * x, int ix, void * y, int iy) __asm__("cblas_caxpy");
extern "C" void __wrap_cblas_caxpy(int n, const void * al, const void * x, int ix, void * y, int iy) { K k("cblas_caxpy", PC); if (n>0&&nz<fc>(al)) { k.ve(x,sizeof(fc),n,ix,0); k.ve(y,sizeof(fc),n,iy,1); }
  __real_cblas_caxpy(n, al, x, ix, y, iy);  }
extern "C" void __real_cblas_ccopy(int n, const void * x, int ix, void * y, int iy) __asm__("cblas_ccopy");
extern "C" void __wrap_cblas_ccopy(int n, const void * x, int ix, void * y, int iy) { K k("cblas_ccopy", PC); k.ve(x,sizeof(fc),n,ix,0); k.ve(y,sizeof(fc),n,iy,1);
  __real_cblas_ccopy(n, x, ix, y, iy);  }
extern "C" void __real_cblas_cswap(int n, void * x, int ix, void * y, int iy) __asm__("cblas_cswap");
extern "C" void __wrap_cblas_cswap(int n, void * x, int ix, void * y, int iy) { K k("cblas_cswap", PC); k.ve(x,sizeof(fc),n,ix,1); k.ve(y,sizeof(fc),n,iy,1);
  __real_cblas_cswap(n, x, ix, y, iy);  }
extern "C" void __real_cblas_cscal(int n, const void * al, void * x, int ix) __asm__("cblas_cscal");
extern "C" void __wrap_cblas_cscal(int n, const void * al, void * x, int ix) { K k("cblas_cscal", PC); k.ve(x,sizeof(fc),n,ix,1);
  __real_cblas_cscal(n, al, x, ix);  }
extern "C" int __real_LAPACKE_cgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_cgeqr2_work");
extern "C" int __wrap_LAPACKE_cgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_cgeqr2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(fc),m,n,lda,1); k.ve(tau,sizeof(fc),m<n?m:n,1,1); k.ve(wk,sizeof(fc),n,1,1); }
  int r_ = __real_LAPACKE_cgeqr2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_cgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_cgelq2_work");
extern "C" int __wrap_LAPACKE_cgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_cgelq2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(fc),m,n,lda,1); k.ve(tau,sizeof(fc),m<n?m:n,1,1); k.ve(wk,sizeof(fc),m,1,1); }
  int r_ = __real_LAPACKE_cgelq2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_chegst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) __asm__("LAPACKE_chegst_work");
extern "C" int __wrap_LAPACKE_chegst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) { K k("LAPACKE_chegst_work", PC); k.dims(n,0,0); k.ld(lda,n); k.ld(ldb,n); if (n>0) { k.trc(a,sizeof(fc),n,lda,u,0,1); k.trc(b,sizeof(fc),n,ldb,u,0,0); }
  int r_ = __real_LAPACKE_chegst_work(o, it, u, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_clacgv_work(int n, void * x, int ix) __asm__("LAPACKE_clacgv_work");
extern "C" int __wrap_LAPACKE_clacgv_work(int n, void * x, int ix) { K k("LAPACKE_clacgv_work", PC); k.ve(x,sizeof(fc),n,ix,1);
  int r_ = __real_LAPACKE_clacgv_work(n, x, ix); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_clacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_clacpy_work");
extern "C" int __wrap_LAPACKE_clacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_clacpy_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.tz(a,sizeof(fc),m,n,lda,u,0,0); k.tz(b,sizeof(fc),m,n,ldb,u,0,1);
  int r_ = __real_LAPACKE_clacpy_work(o, u, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_claset_work(int o, char u, int m, int n, float _Complex al, float _Complex be, void * a, int lda) __asm__("LAPACKE_claset_work");
extern "C" int __wrap_LAPACKE_claset_work(int o, char u, int m, int n, float _Complex al, float _Complex be, void * a, int lda) { K k("LAPACKE_claset_work", PC); k.dims(m,n,0); k.ld(lda,m); k.tz(a,sizeof(fc),m,n,lda,u,0,1);
  int r_ = __real_LAPACKE_claset_work(o, u, m, n, al, be, a, lda); k.ret(r_); return r_; }
extern "C" float __real_LAPACKE_clange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_clange_work");
extern "C" float __wrap_LAPACKE_clange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) { K k("LAPACKE_clange_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ge(a,sizeof(fc),m,n,lda,0); if ((nm|32)=='i'&&m>0&&n>0) k.ve(wk,sizeof(float),m,1,1);
  float r_ = __real_LAPACKE_clange_work(o, nm, m, n, a, lda, wk);  return r_; }
extern "C" float __real_LAPACKE_clansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_clansy_work");
extern "C" float __wrap_LAPACKE_clansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) { K k("LAPACKE_clansy_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.trc(a,sizeof(fc),n,lda,u,0,0); int c_=nm|32; if (c_=='i'||c_=='o'||c_=='1') k.ve(wk,sizeof(float),n,1,1); }
  float r_ = __real_LAPACKE_clansy_work(o, nm, u, n, a, lda, wk);  return r_; }
extern "C" float __real_LAPACKE_clanhe_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_clanhe_work");
extern "C" float __wrap_LAPACKE_clanhe_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) { K k("LAPACKE_clanhe_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.trc(a,sizeof(fc),n,lda,u,0,0); int c_=nm|32; if (c_=='i'||c_=='o'||c_=='1') k.ve(wk,sizeof(float),n,1,1); }
  float r_ = __real_LAPACKE_clanhe_work(o, nm, u, n, a, lda, wk);  return r_; }
extern "C" int __real_LAPACKE_clarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) __asm__("LAPACKE_clarfb_work");
extern "C" int __wrap_LAPACKE_clarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) { K k("LAPACKE_clarfb_work", PC); k.dims(m,n,kk); int q=(s|32)=='l'?m:n, r=(s|32)=='l'?n:m; k.ld(ldc,m); k.ld(ldt,kk); k.ld(ldw,r); k.ld(ldv,(sv|32)=='c'?q:kk);
       if (m>0&&n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(fc),q,kk,ldv,'L',1,0); else k.tz(v,sizeof(fc),kk,q,ldv,'U',1,0); }
       k.trc(tt,sizeof(fc),kk,ldt,(d|32)=='f'?'U':'L',0,0); k.ge(c,sizeof(fc),m,n,ldc,1); k.ge(wk,sizeof(fc),r,kk,ldw,1); }
  int r_ = __real_LAPACKE_clarfb_work(o, s, t, d, sv, m, n, kk, v, ldv, tt, ldt, c, ldc, wk, ldw); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_clarfg_work(int n, void * al, void * x, int ix, void * tau) __asm__("LAPACKE_clarfg_work");
extern "C" int __wrap_LAPACKE_clarfg_work(int n, void * al, void * x, int ix, void * tau) { K k("LAPACKE_clarfg_work", PC); if (n>0) { k.ve(al,sizeof(fc),1,1,1); k.ve(x,sizeof(fc),n-1,ix,1); } k.ve(tau,sizeof(fc),1,1,1);
  int r_ = __real_LAPACKE_clarfg_work(n, al, x, ix, tau); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_clarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) __asm__("LAPACKE_clarft_work");
extern "C" int __wrap_LAPACKE_clarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) { K k("LAPACKE_clarft_work", PC); k.dims(n,kk,0); k.ld(ldt,kk); k.ld(ldv,(sv|32)=='c'?n:kk);
       if (n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(fc),n,kk,ldv,'L',1,0); else k.tz(v,sizeof(fc),kk,n,ldv,'U',1,0); }
       k.ve(tau,sizeof(fc),kk,1,0); k.trc(tt,sizeof(fc),kk,ldt,(d|32)=='f'?'U':'L',0,1); }
  int r_ = __real_LAPACKE_clarft_work(o, d, sv, n, kk, v, ldv, tau, tt, ldt); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_clarfx_work(int o, char s, int m, int n, const void * v, float _Complex tau, void * c, int ldc, void * wk) __asm__("LAPACKE_clarfx_work");
extern "C" int __wrap_LAPACKE_clarfx_work(int o, char s, int m, int n, const void * v, float _Complex tau, void * c, int ldc, void * wk) { K k("LAPACKE_clarfx_work", PC); k.dims(m,n,0); k.ld(ldc,m); if (m>0&&n>0&&tau!=(float _Complex)0) { k.ve(v,sizeof(fc),(s|32)=='l'?m:n,1,0); k.ge(c,sizeof(fc),m,n,ldc,1); if (((s|32)=='l'?m:n)>10) k.ve(wk,sizeof(fc),(s|32)=='l'?n:m,1,1); }
  int r_ = __real_LAPACKE_clarfx_work(o, s, m, n, v, tau, c, ldc, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_clauum_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_clauum_work");
extern "C" int __wrap_LAPACKE_clauum_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_clauum_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(fc),n,lda,u,0,1);
  int r_ = __real_LAPACKE_clauum_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_cpotrf_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_cpotrf_work");
extern "C" int __wrap_LAPACKE_cpotrf_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_cpotrf_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(fc),n,lda,u,0,1);
  int r_ = __real_LAPACKE_cpotrf_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_ctrtri_work(int o, char u, char d, int n, void * a, int lda) __asm__("LAPACKE_ctrtri_work");
extern "C" int __wrap_LAPACKE_ctrtri_work(int o, char u, char d, int n, void * a, int lda) { K k("LAPACKE_ctrtri_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(fc),n,lda,u,(d|32)=='u',1);
  int r_ = __real_LAPACKE_ctrtri_work(o, u, d, n, a, lda); k.ret(r_); return r_; }
extern "C" float __real_clantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) __asm__("clantr_");
extern "C" float __wrap_clantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) { K k("clantr_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); k.tz(a,sizeof(fc),*m,*n,*lda,*u,(*d|32)=='u',0); if ((*nm|32)=='i'&&*m>0&&*n>0) k.ve(wk,sizeof(float),*m,1,1);
  float r_ = __real_clantr_(nm, u, d, m, n, a, lda, wk, l1, l2, l3);  return r_; }
extern "C" void __real_clascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) __asm__("clascl_");
extern "C" void __wrap_clascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) { K k("clascl_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); { int c_=*t|32; if (c_=='g'||c_=='l'||c_=='u') k.tz(a,sizeof(fc),*m,*n,*lda,c_=='g'?'G':c_=='l'?'L':'U',0,1); }
  __real_clascl_(t, kl, ku, cf, ct, m, n, a, lda, info, l1); k.ret(*info); }
extern "C" void __real_classq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) __asm__("classq_");
extern "C" void __wrap_classq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) { K k("classq_", PC); if (*n>0) k.ve(x,sizeof(fc),*n,*ix,0); k.ve(scl,sizeof(float),1,1,1); k.ve(ssq,sizeof(float),1,1,1);
  __real_classq_(n, x, ix, scl, ssq);  }
extern "C" void __real_cblas_zgemm(int o, int ta, int tb, int m, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_zgemm");
extern "C" void __wrap_cblas_zgemm(int o, int ta, int tb, int m, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_zgemm", PC); k.dims(m,n,kk); int am=ta==111?m:kk, an=ta==111?kk:m, bm=tb==111?kk:n, bn=tb==111?n:kk; k.ld(lda,am); k.ld(ldb,bm); k.ld(ldc,m);
       if (m>0&&n>0) { if (nz<dc>(al)&&kk>0) { k.ge(a,sizeof(dc),am,an,lda,0); k.ge(b,sizeof(dc),bm,bn,ldb,0); } k.ge(c,sizeof(dc),m,n,ldc,1); }
  __real_cblas_zgemm(o, ta, tb, m, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_zsymm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_zsymm");
extern "C" void __wrap_cblas_zsymm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_zsymm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m); k.ld(ldc,m);
           if (m>0&&n>0) { if (nz<dc>(al)) { k.tr(a,sizeof(dc),na,lda,u,0,0); k.ge(b,sizeof(dc),m,n,ldb,0); } k.ge(c,sizeof(dc),m,n,ldc,1); }
  __real_cblas_zsymm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_zhemm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_zhemm");
extern "C" void __wrap_cblas_zhemm(int o, int s, int u, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_zhemm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m); k.ld(ldc,m);
           if (m>0&&n>0) { if (nz<dc>(al)) { k.tr(a,sizeof(dc),na,lda,u,0,0); k.ge(b,sizeof(dc),m,n,ldb,0); } k.ge(c,sizeof(dc),m,n,ldc,1); }
  __real_cblas_zhemm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_zsyrk(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * be, void * c, int ldc) __asm__("cblas_zsyrk");
extern "C" void __wrap_cblas_zsyrk(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * be, void * c, int ldc) { K k("cblas_zsyrk", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldc,n);
           if (n>0) { if (nz<dc>(al)&&kk>0) k.ge(a,sizeof(dc),am,an,lda,0); k.tr(c,sizeof(dc),n,ldc,u,0,1); }
  __real_cblas_zsyrk(o, u, t, n, kk, al, a, lda, be, c, ldc);  }
extern "C" void __real_cblas_zherk(int o, int u, int t, int n, int kk, double al, const void * a, int lda, double be, void * c, int ldc) __asm__("cblas_zherk");
extern "C" void __wrap_cblas_zherk(int o, int u, int t, int n, int kk, double al, const void * a, int lda, double be, void * c, int ldc) { K k("cblas_zherk", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldc,n);
           if (n>0) { if ((al != 0)&&kk>0) k.ge(a,sizeof(dc),am,an,lda,0); k.tr(c,sizeof(dc),n,ldc,u,0,1); }
  __real_cblas_zherk(o, u, t, n, kk, al, a, lda, be, c, ldc);  }
extern "C" void __real_cblas_zsyr2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) __asm__("cblas_zsyr2k");
extern "C" void __wrap_cblas_zsyr2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * c, int ldc) { K k("cblas_zsyr2k", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldb,am); k.ld(ldc,n);
           if (n>0) { if (nz<dc>(al)&&kk>0) { k.ge(a,sizeof(dc),am,an,lda,0); k.ge(b,sizeof(dc),am,an,ldb,0); } k.tr(c,sizeof(dc),n,ldc,u,0,1); }
  __real_cblas_zsyr2k(o, u, t, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_zher2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) __asm__("cblas_zher2k");
extern "C" void __wrap_cblas_zher2k(int o, int u, int t, int n, int kk, const void * al, const void * a, int lda, const void * b, int ldb, double be, void * c, int ldc) { K k("cblas_zher2k", PC); k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldb,am); k.ld(ldc,n);
           if (n>0) { if (nz<dc>(al)&&kk>0) { k.ge(a,sizeof(dc),am,an,lda,0); k.ge(b,sizeof(dc),am,an,ldb,0); } k.tr(c,sizeof(dc),n,ldc,u,0,1); }
  __real_cblas_zher2k(o, u, t, n, kk, al, a, lda, b, ldb, be, c, ldc);  }
extern "C" void __real_cblas_ztrmm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ztrmm");
extern "C" void __wrap_cblas_ztrmm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) { K k("cblas_ztrmm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if (nz<dc>(al)) k.tr(a,sizeof(dc),na,lda,u,d==132,0); k.ge(b,sizeof(dc),m,n,ldb,1); }
  __real_cblas_ztrmm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_ztrsm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ztrsm");
extern "C" void __wrap_cblas_ztrsm(int o, int s, int u, int t, int d, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) { K k("cblas_ztrsm", PC); k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) { if (nz<dc>(al)) k.tr(a,sizeof(dc),na,lda,u,d==132,0); k.ge(b,sizeof(dc),m,n,ldb,1); }
  __real_cblas_ztrsm(o, s, u, t, d, m, n, al, a, lda, b, ldb);  }
extern "C" void __real_cblas_zgemv(int o, int t, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) __asm__("cblas_zgemv");
extern "C" void __wrap_cblas_zgemv(int o, int t, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) { K k("cblas_zgemv", PC); k.dims(m,n,0); k.ld(lda,m); int lx=t==111?n:m, ly=t==111?m:n;
       if (m>0&&n>0) { if (nz<dc>(al)) { k.ge(a,sizeof(dc),m,n,lda,0); k.ve(x,sizeof(dc),lx,ix,0); } k.ve(y,sizeof(dc),ly,iy,1); }
  __real_cblas_zgemv(o, t, m, n, al, a, lda, x, ix, be, y, iy);  }
extern "C" void __real_cblas_ztrmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) __asm__("cblas_ztrmv");
extern "C" void __wrap_cblas_ztrmv(int o, int u, int t, int d, int n, const void * a, int lda, void * x, int ix) { K k("cblas_ztrmv", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.tr(a,sizeof(dc),n,lda,u,d==132,0); k.ve(x,sizeof(dc),n,ix,1); }
  __real_cblas_ztrmv(o, u, t, d, n, a, lda, x, ix);  }
extern "C" void __real_cblas_zgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_zgerc");
extern "C" void __wrap_cblas_zgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) { K k("cblas_zgerc", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0&&nz<dc>(al)) { k.ve(x,sizeof(dc),m,ix,0); k.ve(y,sizeof(dc),n,iy,0); k.ge(a,sizeof(dc),m,n,lda,1); }
  __real_cblas_zgerc(o, m, n, al, x, ix, y, iy, a, lda);  }
extern "C" void __real_cblas_zgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_zgeru");
extern "C" void __wrap_cblas_zgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) { K k("cblas_zgeru", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0&&nz<dc>(al)) { k.ve(x,sizeof(dc),m,ix,0); k.ve(y,sizeof(dc),n,iy,0); k.ge(a,sizeof(dc),m,n,lda,1); }
  __real_cblas_zgeru(o, m, n, al, x, ix, y, iy, a, lda);  }
extern "C" void __real_cblas_zaxpy(int n, const void * al, const void * x, int ix, void * y, int iy) __asm__("cblas_zaxpy");
extern "C" void __wrap_cblas_zaxpy(int n, const void * al, const void * x, int ix, void * y, int iy) { K k("cblas_zaxpy", PC); if (n>0&&nz<dc>(al)) { k.ve(x,sizeof(dc),n,ix,0); k.ve(y,sizeof(dc),n,iy,1); }
  __real_cblas_zaxpy(n, al, x, ix, y, iy);  }
extern "C" void __real_cblas_zcopy(int n, const void * x, int ix, void * y, int iy) __asm__("cblas_zcopy");
extern "C" void __wrap_cblas_zcopy(int n, const void * x, int ix, void * y, int iy) { K k("cblas_zcopy", PC); k.ve(x,sizeof(dc),n,ix,0); k.ve(y,sizeof(dc),n,iy,1);
  __real_cblas_zcopy(n, x, ix, y, iy);  }
extern "C" void __real_cblas_zswap(int n, void * x, int ix, void * y, int iy) __asm__("cblas_zswap");
extern "C" void __wrap_cblas_zswap(int n, void * x, int ix, void * y, int iy) { K k("cblas_zswap", PC); k.ve(x,sizeof(dc),n,ix,1); k.ve(y,sizeof(dc),n,iy,1);
  __real_cblas_zswap(n, x, ix, y, iy);  }
extern "C" void __real_cblas_zscal(int n, const void * al, void * x, int ix) __asm__("cblas_zscal");
extern "C" void __wrap_cblas_zscal(int n, const void * al, void * x, int ix) { K k("cblas_zscal", PC); k.ve(x,sizeof(dc),n,ix,1);
  __real_cblas_zscal(n, al, x, ix);  }
extern "C" int __real_LAPACKE_zgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_zgeqr2_work");
extern "C" int __wrap_LAPACKE_zgeqr2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_zgeqr2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(dc),m,n,lda,1); k.ve(tau,sizeof(dc),m<n?m:n,1,1); k.ve(wk,sizeof(dc),n,1,1); }
  int r_ = __real_LAPACKE_zgeqr2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) __asm__("LAPACKE_zgelq2_work");
extern "C" int __wrap_LAPACKE_zgelq2_work(int o, int m, int n, void * a, int lda, void * tau, void * wk) { K k("LAPACKE_zgelq2_work", PC); k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) { k.ge(a,sizeof(dc),m,n,lda,1); k.ve(tau,sizeof(dc),m<n?m:n,1,1); k.ve(wk,sizeof(dc),m,1,1); }
  int r_ = __real_LAPACKE_zgelq2_work(o, m, n, a, lda, tau, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zhegst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) __asm__("LAPACKE_zhegst_work");
extern "C" int __wrap_LAPACKE_zhegst_work(int o, int it, char u, int n, void * a, int lda, const void * b, int ldb) { K k("LAPACKE_zhegst_work", PC); k.dims(n,0,0); k.ld(lda,n); k.ld(ldb,n); if (n>0) { k.trc(a,sizeof(dc),n,lda,u,0,1); k.trc(b,sizeof(dc),n,ldb,u,0,0); }
  int r_ = __real_LAPACKE_zhegst_work(o, it, u, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlacgv_work(int n, void * x, int ix) __asm__("LAPACKE_zlacgv_work");
extern "C" int __wrap_LAPACKE_zlacgv_work(int n, void * x, int ix) { K k("LAPACKE_zlacgv_work", PC); k.ve(x,sizeof(dc),n,ix,1);
  int r_ = __real_LAPACKE_zlacgv_work(n, x, ix); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_zlacpy_work");
extern "C" int __wrap_LAPACKE_zlacpy_work(int o, char u, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_zlacpy_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.tz(a,sizeof(dc),m,n,lda,u,0,0); k.tz(b,sizeof(dc),m,n,ldb,u,0,1);
  int r_ = __real_LAPACKE_zlacpy_work(o, u, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlaset_work(int o, char u, int m, int n, double _Complex al, double _Complex be, void * a, int lda) __asm__("LAPACKE_zlaset_work");
extern "C" int __wrap_LAPACKE_zlaset_work(int o, char u, int m, int n, double _Complex al, double _Complex be, void * a, int lda) { K k("LAPACKE_zlaset_work", PC); k.dims(m,n,0); k.ld(lda,m); k.tz(a,sizeof(dc),m,n,lda,u,0,1);
  int r_ = __real_LAPACKE_zlaset_work(o, u, m, n, al, be, a, lda); k.ret(r_); return r_; }
extern "C" double __real_LAPACKE_zlange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_zlange_work");
extern "C" double __wrap_LAPACKE_zlange_work(int o, char nm, int m, int n, const void * a, int lda, void * wk) { K k("LAPACKE_zlange_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ge(a,sizeof(dc),m,n,lda,0); if ((nm|32)=='i'&&m>0&&n>0) k.ve(wk,sizeof(double),m,1,1);
  double r_ = __real_LAPACKE_zlange_work(o, nm, m, n, a, lda, wk);  return r_; }
extern "C" double __real_LAPACKE_zlansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_zlansy_work");
extern "C" double __wrap_LAPACKE_zlansy_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) { K k("LAPACKE_zlansy_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.trc(a,sizeof(dc),n,lda,u,0,0); int c_=nm|32; if (c_=='i'||c_=='o'||c_=='1') k.ve(wk,sizeof(double),n,1,1); }
  double r_ = __real_LAPACKE_zlansy_work(o, nm, u, n, a, lda, wk);  return r_; }
extern "C" double __real_LAPACKE_zlanhe_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) __asm__("LAPACKE_zlanhe_work");
extern "C" double __wrap_LAPACKE_zlanhe_work(int o, char nm, char u, int n, const void * a, int lda, void * wk) { K k("LAPACKE_zlanhe_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) { k.trc(a,sizeof(dc),n,lda,u,0,0); int c_=nm|32; if (c_=='i'||c_=='o'||c_=='1') k.ve(wk,sizeof(double),n,1,1); }
  double r_ = __real_LAPACKE_zlanhe_work(o, nm, u, n, a, lda, wk);  return r_; }
extern "C" int __real_LAPACKE_zlarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) __asm__("LAPACKE_zlarfb_work");
extern "C" int __wrap_LAPACKE_zlarfb_work(int o, char s, char t, char d, char sv, int m, int n, int kk, const void * v, int ldv, const void * tt, int ldt, void * c, int ldc, void * wk, int ldw) { K k("LAPACKE_zlarfb_work", PC); k.dims(m,n,kk); int q=(s|32)=='l'?m:n, r=(s|32)=='l'?n:m; k.ld(ldc,m); k.ld(ldt,kk); k.ld(ldw,r); k.ld(ldv,(sv|32)=='c'?q:kk);
       if (m>0&&n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(dc),q,kk,ldv,'L',1,0); else k.tz(v,sizeof(dc),kk,q,ldv,'U',1,0); }
       k.trc(tt,sizeof(dc),kk,ldt,(d|32)=='f'?'U':'L',0,0); k.ge(c,sizeof(dc),m,n,ldc,1); k.ge(wk,sizeof(dc),r,kk,ldw,1); }
  int r_ = __real_LAPACKE_zlarfb_work(o, s, t, d, sv, m, n, kk, v, ldv, tt, ldt, c, ldc, wk, ldw); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlarfg_work(int n, void * al, void * x, int ix, void * tau) __asm__("LAPACKE_zlarfg_work");
extern "C" int __wrap_LAPACKE_zlarfg_work(int n, void * al, void * x, int ix, void * tau) { K k("LAPACKE_zlarfg_work", PC); if (n>0) { k.ve(al,sizeof(dc),1,1,1); k.ve(x,sizeof(dc),n-1,ix,1); } k.ve(tau,sizeof(dc),1,1,1);
  int r_ = __real_LAPACKE_zlarfg_work(n, al, x, ix, tau); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) __asm__("LAPACKE_zlarft_work");
extern "C" int __wrap_LAPACKE_zlarft_work(int o, char d, char sv, int n, int kk, const void * v, int ldv, const void * tau, void * tt, int ldt) { K k("LAPACKE_zlarft_work", PC); k.dims(n,kk,0); k.ld(ldt,kk); k.ld(ldv,(sv|32)=='c'?n:kk);
       if (n>0&&kk>0) { if ((d|32)=='f') { if ((sv|32)=='c') k.tz(v,sizeof(dc),n,kk,ldv,'L',1,0); else k.tz(v,sizeof(dc),kk,n,ldv,'U',1,0); }
       k.ve(tau,sizeof(dc),kk,1,0); k.trc(tt,sizeof(dc),kk,ldt,(d|32)=='f'?'U':'L',0,1); }
  int r_ = __real_LAPACKE_zlarft_work(o, d, sv, n, kk, v, ldv, tau, tt, ldt); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlarfx_work(int o, char s, int m, int n, const void * v, double _Complex tau, void * c, int ldc, void * wk) __asm__("LAPACKE_zlarfx_work");
extern "C" int __wrap_LAPACKE_zlarfx_work(int o, char s, int m, int n, const void * v, double _Complex tau, void * c, int ldc, void * wk) { K k("LAPACKE_zlarfx_work", PC); k.dims(m,n,0); k.ld(ldc,m); if (m>0&&n>0&&tau!=(double _Complex)0) { k.ve(v,sizeof(dc),(s|32)=='l'?m:n,1,0); k.ge(c,sizeof(dc),m,n,ldc,1); if (((s|32)=='l'?m:n)>10) k.ve(wk,sizeof(dc),(s|32)=='l'?n:m,1,1); }
  int r_ = __real_LAPACKE_zlarfx_work(o, s, m, n, v, tau, c, ldc, wk); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlauum_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_zlauum_work");
extern "C" int __wrap_LAPACKE_zlauum_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_zlauum_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(dc),n,lda,u,0,1);
  int r_ = __real_LAPACKE_zlauum_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zpotrf_work(int o, char u, int n, void * a, int lda) __asm__("LAPACKE_zpotrf_work");
extern "C" int __wrap_LAPACKE_zpotrf_work(int o, char u, int n, void * a, int lda) { K k("LAPACKE_zpotrf_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(dc),n,lda,u,0,1);
  int r_ = __real_LAPACKE_zpotrf_work(o, u, n, a, lda); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_ztrtri_work(int o, char u, char d, int n, void * a, int lda) __asm__("LAPACKE_ztrtri_work");
extern "C" int __wrap_LAPACKE_ztrtri_work(int o, char u, char d, int n, void * a, int lda) { K k("LAPACKE_ztrtri_work", PC); k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,sizeof(dc),n,lda,u,(d|32)=='u',1);
  int r_ = __real_LAPACKE_ztrtri_work(o, u, d, n, a, lda); k.ret(r_); return r_; }
extern "C" double __real_zlantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) __asm__("zlantr_");
extern "C" double __wrap_zlantr_(const char * nm, const char * u, const char * d, const int * m, const int * n, const void * a, const int * lda, void * wk, size_t l1, size_t l2, size_t l3) { K k("zlantr_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); k.tz(a,sizeof(dc),*m,*n,*lda,*u,(*d|32)=='u',0); if ((*nm|32)=='i'&&*m>0&&*n>0) k.ve(wk,sizeof(double),*m,1,1);
  double r_ = __real_zlantr_(nm, u, d, m, n, a, lda, wk, l1, l2, l3);  return r_; }
extern "C" void __real_zlascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) __asm__("zlascl_");
extern "C" void __wrap_zlascl_(const char * t, const int * kl, const int * ku, const void * cf, const void * ct, const int * m, const int * n, void * a, const int * lda, int * info, size_t l1) { K k("zlascl_", PC); k.dims(*m,*n,0); k.ld(*lda,*m); { int c_=*t|32; if (c_=='g'||c_=='l'||c_=='u') k.tz(a,sizeof(dc),*m,*n,*lda,c_=='g'?'G':c_=='l'?'L':'U',0,1); }
  __real_zlascl_(t, kl, ku, cf, ct, m, n, a, lda, info, l1); k.ret(*info); }
extern "C" void __real_zlassq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) __asm__("zlassq_");
extern "C" void __wrap_zlassq_(const int * n, const void * x, const int * ix, void * scl, void * ssq) { K k("zlassq_", PC); if (*n>0) k.ve(x,sizeof(dc),*n,*ix,0); k.ve(scl,sizeof(double),1,1,1); k.ve(ssq,sizeof(double),1,1,1);
  __real_zlassq_(n, x, ix, scl, ssq);  }
extern "C" int __real_LAPACKE_dlag2s_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_dlag2s_work");
extern "C" int __wrap_LAPACKE_dlag2s_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_dlag2s_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.ge(a,sizeof(double),m,n,lda,0); k.ge(b,sizeof(float),m,n,ldb,1);
  int r_ = __real_LAPACKE_dlag2s_work(o, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_zlag2c_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_zlag2c_work");
extern "C" int __wrap_LAPACKE_zlag2c_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_zlag2c_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.ge(a,sizeof(dc),m,n,lda,0); k.ge(b,sizeof(fc),m,n,ldb,1);
  int r_ = __real_LAPACKE_zlag2c_work(o, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_slag2d_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_slag2d_work");
extern "C" int __wrap_LAPACKE_slag2d_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_slag2d_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.ge(a,sizeof(float),m,n,lda,0); k.ge(b,sizeof(double),m,n,ldb,1);
  int r_ = __real_LAPACKE_slag2d_work(o, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
extern "C" int __real_LAPACKE_clag2z_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_clag2z_work");
extern "C" int __wrap_LAPACKE_clag2z_work(int o, int m, int n, const void * a, int lda, void * b, int ldb) { K k("LAPACKE_clag2z_work", PC); k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.ge(a,sizeof(fc),m,n,lda,0); k.ge(b,sizeof(dc),m,n,ldb,1);
  int r_ = __real_LAPACKE_clag2z_work(o, m, n, a, lda, b, ldb); k.ret(r_); return r_; }
