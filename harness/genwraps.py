#!/usr/bin/env python3
"""Generates wraps.inc (C++ wrappers of the BLAS/LAPACK kernels PLASMA calls) and wraps.txt."""
out, names = [], []
TY = {"s": "float", "d": "double", "c": "fc", "z": "dc"}
RT = {"s": "float", "d": "double", "c": "float", "z": "double"}
def w(ret, name, params, pre, post=""):
    """params: list of (type, name)"""
    names.append(name)
    ps = ", ".join("%s %s" % p for p in params)
    as_ = ", ".join(p[1] for p in params)
    out.append('extern "C" %s __real_%s(%s) __asm__("%s");' % (ret, name, ps, name))
    out.append('extern "C" %s __wrap_%s(%s) { K k("%s", PC); %s' % (ret, name, ps, name, pre))
    if ret == "void":
        out.append("  __real_%s(%s); %s }" % (name, as_, post))
    else:
        out.append("  %s r_ = __real_%s(%s); %s return r_; }" % (ret, name, as_, post))
V, I = "const void *", "int"
for p in "sdcz":
    cx = p in "cz"
    T, R = TY[p], RT[p]
    es = "sizeof(%s)" % T
    sc = V if cx else T          # scalar alpha
    nz = lambda a: ("nz<%s>(%s)" % (T, a)) if cx else "(%s != 0)" % a
    def cb(n, params, pre): w("void", "cblas_" + p + n, params, pre)
    A, B, C = [(V, "a"), (I, "lda")], [(V, "b"), (I, "ldb")], [("void *", "c"), (I, "ldc")]
    cb("gemm", [(I,"o"),(I,"ta"),(I,"tb"),(I,"m"),(I,"n"),(I,"kk"),(sc,"al")]+A+B+[(sc,"be")]+C,
       f"""k.dims(m,n,kk); int am=ta==111?m:kk, an=ta==111?kk:m, bm=tb==111?kk:n, bn=tb==111?n:kk; k.ld(lda,am); k.ld(ldb,bm); k.ld(ldc,m);
       if (m>0&&n>0) {{ if ({nz('al')}&&kk>0) {{ k.ge(a,{es},am,an,lda,0); k.ge(b,{es},bm,bn,ldb,0); }} k.ge(c,{es},m,n,ldc,1); }}""")
    for f in (["symm", "hemm"] if cx else ["symm"]):
        cb(f, [(I,"o"),(I,"s"),(I,"u"),(I,"m"),(I,"n"),(sc,"al")]+A+B+[(sc,"be")]+C,
           f"""k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m); k.ld(ldc,m);
           if (m>0&&n>0) {{ if ({nz('al')}) {{ k.tr(a,{es},na,lda,u,0,0); k.ge(b,{es},m,n,ldb,0); }} k.ge(c,{es},m,n,ldc,1); }}""")
    for f in (["syrk", "herk"] if cx else ["syrk"]):
        s2 = R if f == "herk" else sc
        z2 = "(al != 0)" if f == "herk" else nz("al")
        cb(f, [(I,"o"),(I,"u"),(I,"t"),(I,"n"),(I,"kk"),(s2,"al")]+A+[(s2,"be")]+C,
           f"""k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldc,n);
           if (n>0) {{ if ({z2}&&kk>0) k.ge(a,{es},am,an,lda,0); k.tr(c,{es},n,ldc,u,0,1); }}""")
    for f in (["syr2k", "her2k"] if cx else ["syr2k"]):
        s2 = R if f == "her2k" else sc
        cb(f, [(I,"o"),(I,"u"),(I,"t"),(I,"n"),(I,"kk"),(sc,"al")]+A+B+[(s2,"be")]+C,
           f"""k.dims(n,kk,0); int am=t==111?n:kk, an=t==111?kk:n; k.ld(lda,am); k.ld(ldb,am); k.ld(ldc,n);
           if (n>0) {{ if ({nz('al')}&&kk>0) {{ k.ge(a,{es},am,an,lda,0); k.ge(b,{es},am,an,ldb,0); }} k.tr(c,{es},n,ldc,u,0,1); }}""")
    for f in ("trmm", "trsm"):
        cb(f, [(I,"o"),(I,"s"),(I,"u"),(I,"t"),(I,"d"),(I,"m"),(I,"n"),(sc,"al")]+A+[("void *","b"),(I,"ldb")],
           f"""k.dims(m,n,0); int na=s==141?m:n; k.ld(lda,na); k.ld(ldb,m);
           if (m>0&&n>0) {{ if ({nz('al')}) k.tr(a,{es},na,lda,u,d==132,0); k.ge(b,{es},m,n,ldb,1); }}""")
    cb("gemv", [(I,"o"),(I,"t"),(I,"m"),(I,"n"),(sc,"al")]+A+[(V,"x"),(I,"ix"),(sc,"be"),("void *","y"),(I,"iy")],
       f"""k.dims(m,n,0); k.ld(lda,m); int lx=t==111?n:m, ly=t==111?m:n;
       if (m>0&&n>0) {{ if ({nz('al')}) {{ k.ge(a,{es},m,n,lda,0); k.ve(x,{es},lx,ix,0); }} k.ve(y,{es},ly,iy,1); }}""")
    cb("trmv", [(I,"o"),(I,"u"),(I,"t"),(I,"d"),(I,"n")]+A+[("void *","x"),(I,"ix")],
       f"k.dims(n,0,0); k.ld(lda,n); if (n>0) {{ k.tr(a,{es},n,lda,u,d==132,0); k.ve(x,{es},n,ix,1); }}")
    for f in (["gerc", "geru"] if cx else ["ger"]):
        cb(f, [(I,"o"),(I,"m"),(I,"n"),(sc,"al"),(V,"x"),(I,"ix"),(V,"y"),(I,"iy"),("void *","a"),(I,"lda")],
           f"k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0&&{nz('al')}) {{ k.ve(x,{es},m,ix,0); k.ve(y,{es},n,iy,0); k.ge(a,{es},m,n,lda,1); }}")
    cb("axpy", [(I,"n"),(sc,"al"),(V,"x"),(I,"ix"),("void *","y"),(I,"iy")],
       f"if (n>0&&{nz('al')}) {{ k.ve(x,{es},n,ix,0); k.ve(y,{es},n,iy,1); }}")
    cb("copy", [(I,"n"),(V,"x"),(I,"ix"),("void *","y"),(I,"iy")], f"k.ve(x,{es},n,ix,0); k.ve(y,{es},n,iy,1);")
    cb("swap", [(I,"n"),("void *","x"),(I,"ix"),("void *","y"),(I,"iy")], f"k.ve(x,{es},n,ix,1); k.ve(y,{es},n,iy,1);")
    cb("scal", [(I,"n"),(sc,"al"),("void *","x"),(I,"ix")], f"k.ve(x,{es},n,ix,1);")
    # ---- LAPACKE
    cT = {"s":"float","d":"double","c":"float _Complex","z":"double _Complex"}[p]
    P = "void *"; CP = V; CH = "char"
    def lp(n, params, pre, full=None): w("int", "LAPACKE_" + (full or p + n) + "_work", [(I,"o")]+params, pre, "k.ret(r_);")
    def lp0(n, params, pre): w("int", "LAPACKE_" + p + n + "_work", params, pre, "k.ret(r_);")
    for f, s in (("geqr2","n"), ("gelq2","m")):
        lp(f, [(I,"m"),(I,"n"),(P,"a"),(I,"lda"),(P,"tau"),(P,"wk")],
           f"k.dims(m,n,0); k.ld(lda,m); if (m>0&&n>0) {{ k.ge(a,{es},m,n,lda,1); k.ve(tau,{es},m<n?m:n,1,1); k.ve(wk,{es},{s},1,1); }}")
    lp("hegst" if cx else "sygst", [(I,"it"),(CH,"u"),(I,"n"),(P,"a"),(I,"lda"),(CP,"b"),(I,"ldb")],
       f"k.dims(n,0,0); k.ld(lda,n); k.ld(ldb,n); if (n>0) {{ k.trc(a,{es},n,lda,u,0,1); k.trc(b,{es},n,ldb,u,0,0); }}")
    if cx:
        lp0("lacgv", [(I,"n"),(P,"x"),(I,"ix")], f"k.ve(x,{es},n,ix,1);")
    lp("lacpy", [(CH,"u"),(I,"m"),(I,"n"),(CP,"a"),(I,"lda"),(P,"b"),(I,"ldb")],
       f"k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.tz(a,{es},m,n,lda,u,0,0); k.tz(b,{es},m,n,ldb,u,0,1);")
    lp("laset", [(CH,"u"),(I,"m"),(I,"n"),(cT,"al"),(cT,"be"),(P,"a"),(I,"lda")],
       f"k.dims(m,n,0); k.ld(lda,m); k.tz(a,{es},m,n,lda,u,0,1);")
    w(R, "LAPACKE_%slange_work" % p, [(I,"o"),(CH,"nm"),(I,"m"),(I,"n"),(CP,"a"),(I,"lda"),(P,"wk")],
      f"k.dims(m,n,0); k.ld(lda,m); k.ge(a,{es},m,n,lda,0); if ((nm|32)=='i'&&m>0&&n>0) k.ve(wk,sizeof({R}),m,1,1);")
    for f in (["lansy","lanhe"] if cx else ["lansy"]):
        w(R, "LAPACKE_%s%s_work" % (p, f), [(I,"o"),(CH,"nm"),(CH,"u"),(I,"n"),(CP,"a"),(I,"lda"),(P,"wk")],
          f"k.dims(n,0,0); k.ld(lda,n); if (n>0) {{ k.trc(a,{es},n,lda,u,0,0); int c_=nm|32; if (c_=='i'||c_=='o'||c_=='1') k.ve(wk,sizeof({R}),n,1,1); }}")
    lp("larfb", [(CH,"s"),(CH,"t"),(CH,"d"),(CH,"sv"),(I,"m"),(I,"n"),(I,"kk"),(CP,"v"),(I,"ldv"),(CP,"tt"),(I,"ldt"),(P,"c"),(I,"ldc"),(P,"wk"),(I,"ldw")],
       f"""k.dims(m,n,kk); int q=(s|32)=='l'?m:n, r=(s|32)=='l'?n:m; k.ld(ldc,m); k.ld(ldt,kk); k.ld(ldw,r); k.ld(ldv,(sv|32)=='c'?q:kk);
       if (m>0&&n>0&&kk>0) {{ if ((d|32)=='f') {{ if ((sv|32)=='c') k.tz(v,{es},q,kk,ldv,'L',1,0); else k.tz(v,{es},kk,q,ldv,'U',1,0); }}
       k.trc(tt,{es},kk,ldt,(d|32)=='f'?'U':'L',0,0); k.ge(c,{es},m,n,ldc,1); k.ge(wk,{es},r,kk,ldw,1); }}""")
    lp0("larfg", [(I,"n"),(P,"al"),(P,"x"),(I,"ix"),(P,"tau")],
        f"if (n>0) {{ k.ve(al,{es},1,1,1); k.ve(x,{es},n-1,ix,1); }} k.ve(tau,{es},1,1,1);")
    lp("larft", [(CH,"d"),(CH,"sv"),(I,"n"),(I,"kk"),(CP,"v"),(I,"ldv"),(CP,"tau"),(P,"tt"),(I,"ldt")],
       f"""k.dims(n,kk,0); k.ld(ldt,kk); k.ld(ldv,(sv|32)=='c'?n:kk);
       if (n>0&&kk>0) {{ if ((d|32)=='f') {{ if ((sv|32)=='c') k.tz(v,{es},n,kk,ldv,'L',1,0); else k.tz(v,{es},kk,n,ldv,'U',1,0); }}
       k.ve(tau,{es},kk,1,0); k.trc(tt,{es},kk,ldt,(d|32)=='f'?'U':'L',0,1); }}""")
    lp("larfx", [(CH,"s"),(I,"m"),(I,"n"),(CP,"v"),(cT,"tau"),(P,"c"),(I,"ldc"),(P,"wk")],
       f"k.dims(m,n,0); k.ld(ldc,m); if (m>0&&n>0&&tau!=({cT})0) {{ k.ve(v,{es},(s|32)=='l'?m:n,1,0); k.ge(c,{es},m,n,ldc,1); if (((s|32)=='l'?m:n)>10) k.ve(wk,{es},(s|32)=='l'?n:m,1,1); }}")
    for f in ("lauum", "potrf"):
        lp(f, [(CH,"u"),(I,"n"),(P,"a"),(I,"lda")], f"k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,{es},n,lda,u,0,1);")
    lp("trtri", [(CH,"u"),(CH,"d"),(I,"n"),(P,"a"),(I,"lda")], f"k.dims(n,0,0); k.ld(lda,n); if (n>0) k.trc(a,{es},n,lda,u,(d|32)=='u',1);")
    if not cx:
        w(R, "LAPACKE_%slamch_work" % p, [(CH,"c")], "")
        lp("stein", [(I,"n"),(CP,"dd"),(CP,"e"),(I,"m"),(CP,"ww"),(CP,"ib"),(CP,"is"),(P,"z"),(I,"ldz"),(P,"wk"),(P,"iw"),(P,"ifl")],
           f"k.dims(n,m,0); k.ld(ldz,n); if (n>0&&m>0) {{ k.ve(dd,{es},n,1,0); k.ve(e,{es},n-1,1,0); k.ve(ww,{es},m,1,0); k.ve(ib,4,m,1,0); k.ge(z,{es},n,m,ldz,1); k.ve(wk,{es},5*n,1,1); k.ve(iw,4,n,1,1); k.ve(ifl,4,m,1,1); }}")
        w("int", "LAPACKE_%sbdsdc" % p, [(I,"o"),(CH,"u"),(CH,"cq"),(I,"n"),(P,"dd"),(P,"e"),(P,"uu"),(I,"ldu"),(P,"vt"),(I,"ldvt"),(P,"q"),(P,"iq")],
          f"k.dims(n,0,0); if (n>0) {{ k.ve(dd,{es},n,1,1); k.ve(e,{es},n-1,1,1); if ((cq|32)=='i') {{ k.ge(uu,{es},n,n,ldu,1); k.ge(vt,{es},n,n,ldvt,1); }} }}")
    # Fortran
    CC = "const char *"; IP = "const int *"
    w(R, p + "lantr_", [(CC,"nm"),(CC,"u"),(CC,"d"),(IP,"m"),(IP,"n"),(CP,"a"),(IP,"lda"),(P,"wk"),("size_t","l1"),("size_t","l2"),("size_t","l3")],
      f"k.dims(*m,*n,0); k.ld(*lda,*m); k.tz(a,{es},*m,*n,*lda,*u,(*d|32)=='u',0); if ((*nm|32)=='i'&&*m>0&&*n>0) k.ve(wk,sizeof({R}),*m,1,1);")
    w("void", p + "lascl_", [(CC,"t"),(IP,"kl"),(IP,"ku"),(CP,"cf"),(CP,"ct"),(IP,"m"),(IP,"n"),(P,"a"),(IP,"lda"),("int *","info"),("size_t","l1")],
      f"k.dims(*m,*n,0); k.ld(*lda,*m); {{ int c_=*t|32; if (c_=='g'||c_=='l'||c_=='u') k.tz(a,{es},*m,*n,*lda,c_=='g'?'G':c_=='l'?'L':'U',0,1); }}", "k.ret(*info);")
    w("void", p + "lassq_", [(IP,"n"),(CP,"x"),(IP,"ix"),(P,"scl"),(P,"ssq")],
      f"if (*n>0) k.ve(x,{es},*n,*ix,0); k.ve(scl,sizeof({R}),1,1,1); k.ve(ssq,sizeof({R}),1,1,1);")
for nme, a, b in (("dlag2s","double","float"),("zlag2c","dc","fc"),("slag2d","float","double"),("clag2z","fc","dc")):
    w("int", "LAPACKE_%s_work" % nme, [(I,"o"),(I,"m"),(I,"n"),(V,"a"),(I,"lda"),("void *","b"),(I,"ldb")],
      f"k.dims(m,n,0); k.ld(lda,m); k.ld(ldb,m); k.ge(a,sizeof({a}),m,n,lda,0); k.ge(b,sizeof({b}),m,n,ldb,1);", "k.ret(r_);")
import os
d = os.path.dirname(os.path.abspath(__file__))
open(d + "/wraps.inc", "w").write("\n".join(out) + "\n")
names += "malloc calloc realloc free posix_memalign aligned_alloc memcpy memset memmove luaL_newstate lua_close".split()
open(d + "/wraps.txt", "w").write("\n".join(names) + "\n")
print(len(names))
