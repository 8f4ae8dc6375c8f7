"""Builds everything the checks run from /repo's current working tree, in a private scratch directory."""
import os, subprocess, shutil, tempfile, atexit, sys
from concurrent.futures import ThreadPoolExecutor
REPO=os.environ.get('VERIF_REPO','/repo')
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC=min(8,os.cpu_count() or 4)
_scratch=None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch=tempfile.mkdtemp(prefix='verif-')
        pid=os.getpid()
        def clean():
            if os.getpid()==pid: shutil.rmtree(_scratch,ignore_errors=True)
        atexit.register(clean)
    return _scratch
# per-file ISA flags: the ones binding.gyp uses for x86-64 (enable_native_tuning=0, as in /opt/vp/build.sh)
AVX2=['-mavx2','-mpopcnt','-mbmi','-mbmi2','-mlzcnt']
VBMI2=['-mavx512vbmi2','-mavx512vl','-mavx512bw','-mpopcnt','-mbmi','-mbmi2','-mlzcnt']
ISA_FLAGS={
 'encoder.cc':[], 'decoder.cc':[], 'crc.cc':[], 'platform.cc':[], 'yencode.cc':[],
 'encoder_sse2.cc':['-msse2'],'decoder_sse2.cc':['-msse2'],
 'encoder_ssse3.cc':['-mssse3'],'decoder_ssse3.cc':['-mssse3'],
 'encoder_avx.cc':['-mavx','-mpopcnt'],'decoder_avx.cc':['-mavx','-mpopcnt'],
 'encoder_avx2.cc':AVX2,'decoder_avx2.cc':AVX2,
 'encoder_vbmi2.cc':VBMI2,'decoder_vbmi2.cc':VBMI2,
 'crc_folding.cc':['-mssse3','-msse4.1','-mpclmul'],
 'crc_folding_256.cc':['-mavx2','-mvpclmulqdq','-mpclmul'],
}
EXTRA_CC=['crc_arm.cc','crc_arm_pmull.cc','crc_riscv.cc','encoder_neon.cc','decoder_neon.cc','encoder_rvv.cc','decoder_rvv.cc']  # empty stubs on x86
CORE=[f for f in ISA_FLAGS if f!='yencode.cc']+[f for f in EXTRA_CC]
BASE=['-std=gnu++17','-D_FILE_OFFSET_BITS=64','-Wno-unused-function','-w']
INC=['-I'+REPO+'/src','-I'+REPO+'/crcutil-1.0/code','-I'+REPO+'/crcutil-1.0/examples','-I'+REPO+'/crcutil-1.0/tests']
NODEINC=['-I/usr/include/node']
class BuildError(Exception): pass
def run(cmd,timeout=600,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,**kw)
    if r.returncode!=0: raise BuildError('command failed: %s\n%s'%(' '.join(cmd),r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout
def pmap(fn,items):
    with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(fn,items))
def _src(f): return os.path.join(REPO,'src',f)
def crcutil_sources():
    d=REPO+'/crcutil-1.0'
    return [d+'/code/'+f for f in sorted(os.listdir(d+'/code')) if f.endswith('.cc')]+[d+'/examples/interface.cc']
def compile_core(dispatch_hook=True,extra=(),tag='core',opt='-O3'):
    """object files of the native core (g++). with dispatch_hook, the CPU detection calls are renamed so that the harness picks the level."""
    out=os.path.join(scratch(),tag); os.makedirs(out,exist_ok=True)
    hook=['-Dcpu_supports_isa=vf_cpu_supports_isa','-Dcpu_supports_crc_isa=vf_cpu_supports_crc_isa'] if dispatch_hook else []
    jobs=[]
    for f in CORE:
        if not os.path.exists(_src(f)): continue
        h=[] if f=='platform.cc' else hook
        jobs.append((_src(f),os.path.join(out,f+'.o'),ISA_FLAGS.get(f,[])+h))
    for s in crcutil_sources():
        jobs.append((s,os.path.join(out,'cu_'+os.path.basename(s)+'.o'),['-DCRCUTIL_USE_MM_CRC32=0']))
    def one(j):
        run(['g++',opt,'-fPIC','-fno-rtti','-fno-exceptions','-fomit-frame-pointer','-mno-avx256-split-unaligned-load','-mno-avx256-split-unaligned-store']+BASE+list(extra)+(j[2] if any(x.startswith('-m') for x in j[2]) else j[2]+['-fno-strict-aliasing'])+INC+['-c',j[0],'-o',j[1]])
        return j[1]
    return pmap(one,jobs)
def build_harness():
    objs=compile_core(True)
    exe=os.path.join(scratch(),'diff')
    run(['g++','-O2','-std=c++17','-w']+INC+[VERIF+'/harness/diff.cc']+objs+['-o',exe,'-lpthread'])
    return exe
def build_addon():
    """the addon plus index.js in a scratch copy of the layout index.js expects"""
    objs=compile_core(False,tag='addon')
    d=os.path.join(scratch(),'pkg'); os.makedirs(d+'/build/Release',exist_ok=True)
    o=os.path.join(scratch(),'addon','yencode.cc.o')
    run(['g++','-O2','-fPIC','-std=gnu++17','-fno-rtti','-fno-exceptions','-w','-DNODE_GYP_MODULE_NAME=yencode','-DBUILDING_NODE_EXTENSION','-D_FILE_OFFSET_BITS=64']+INC+NODEINC+['-c',_src('yencode.cc'),'-o',o])
    run(['g++','-shared','-o',d+'/build/Release/yencode.node',o]+objs)
    shutil.copy(REPO+'/index.js',d+'/index.js')
    return d
# ---------------------------------------------------------------- LLVM IR extraction for the deductive part
_ll={}
def llvm_ir(f,extra=()):
    """LLVM IR of /repo/src/<f>, generated from the working tree with the ISA flags of the real build"""
    key=(f,tuple(extra))
    if key not in _ll:
        out=os.path.join(scratch(),'ir_%d_'%os.getpid()+f+('_%d'%abs(hash(key)) if extra else '')+'.ll')
        isa=ISA_FLAGS.get(f,[])
        run(['clang++','-S','-emit-llvm','-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-fno-rtti','-fno-exceptions']+BASE+([] if any(x.startswith('-m') for x in isa) else ['-fno-strict-aliasing'])+isa+list(extra)+INC+(NODEINC if f=='yencode.cc' else [])+[_src(f),'-o',out])
        _ll[key]=open(out).read()
    return _ll[key]
def llvm_ir_kernel(f):
    """(IR, encode function, kernel): like llvm_ir, with the vector kernel that the encode function calls kept as a function of its own"""
    import re
    key=('k',f)
    if key not in _ll:
        flags=['-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops']; out=os.path.join(scratch(),'irk_%d_'%os.getpid()+f+'.ll')
        isa=ISA_FLAGS.get(f,[]); cc=['clang++','-S','-emit-llvm']+flags+['-fno-rtti','-fno-exceptions']+BASE+isa
        run(cc+['-Xclang','-disable-llvm-passes']+INC+[_src(f),'-o',out]); t=open(out).read()
        from irv.ir import Unsupported
        m=set(re.findall(r'store ptr @([\w.$]+), ptr @_ZN9RapidYenc10_do_encodeE\b',t))
        if len(m)!=1: raise Unsupported('the encode function of %s was not recognised'%f)
        fn=m.pop(); body=re.search(r'(?ms)^define [^\n]*@%s\(.*?^}'%re.escape(fn),t)
        if not body: raise Unsupported('the encode function of %s has no body'%f)
        ks=set(re.findall(r'call void @([\w.$]+)\(i32 noundef %[\w.]+, ptr noundef %[\w.]+, ptr noundef %[\w.]+, ptr [^%]*%[\w.]+, ptr [^%]*%[\w.]+\)',body.group(0)))
        ks=[k for k in ks if re.search(r'(?m)^define [^\n]*@%s\('%re.escape(k),t)]
        if len(ks)!=1: raise Unsupported('the vector kernel of %s was not recognised'%f)
        kern=ks[0]
        def fix(mm):
            l=mm.group(0); a=re.search(r'#(\d+)',l)
            return l.replace('#'+a.group(1),'#9999',1)
        dl=re.search(r'(?m)^define [^\n]*@%s\([^\n]*$'%re.escape(kern),t).group(0); n=re.search(r' #(\d+)',dl).group(1)
        attrs=re.search(r'(?m)^attributes #%s = \{(.*)\}$'%n,t).group(1).replace('alwaysinline',''); attrs=attrs if 'noinline' in attrs else ' noinline'+attrs
        t=t.replace(dl,re.sub(r' #%s\b'%n,' #9999',dl,count=1).replace('linkonce_odr','weak_odr'))+'\nattributes #9999 = {%s}\n'%attrs
        open(out,'w').write(t); out2=out[:-3]+'_o.ll'
        run(['clang++','-S','-emit-llvm']+flags+['-Wno-everything',out,'-o',out2])
        _ll[key]=(open(out2).read(),fn,kern)
    return _ll[key]
_LUT={}
def lut(f,init):
    """contents of the lookup tables of /repo/src/<f> after its initialisation code has run (the real code, which takes no input)"""
    if f not in _LUT:
        d=os.path.join(scratch(),'lut_%d_'%os.getpid()+f); os.makedirs(d,exist_ok=True)
        t=os.path.join(d,'dump.cc')
        open(t,'w').write('#include "%s"\n#include <cstdio>\nint main(){ %s; if(!lookups) return 3; fwrite((const void*)lookups,1,sizeof(*lookups),stdout); return ferror(stdout)?4:0; }\n'%(_src(f),init))
        srcs=[(t,ISA_FLAGS.get(f,[]))]
        for g in ('decoder.cc','encoder.cc','platform.cc')+tuple(x for x in ('decoder_sse2.cc','decoder_ssse3.cc','decoder_avx.cc','decoder_avx2.cc','decoder_vbmi2.cc') if x!=f): srcs.append((_src(g),ISA_FLAGS.get(g,[])))
        def one(j):
            o=os.path.join(d,os.path.basename(j[0])+'.o'); run(['g++','-O1','-fno-rtti','-fno-exceptions','-ffunction-sections','-fdata-sections']+BASE+j[1]+INC+['-c',j[0],'-o',o]); return o
        if f.startswith('encoder'): srcs=[s for s in srcs if not s[0].endswith('/encoder.cc')]+[]
        run(['g++']+pmap(one,srcs)+['-Wl,--gc-sections','-Wl,--unresolved-symbols=ignore-all','-o',d+'/dump'])
        r=subprocess.run([d+'/dump'],stdout=subprocess.PIPE,timeout=60)
        if r.returncode!=0: raise BuildError('table dump failed (%d)'%r.returncode)
        _LUT[f]=r.stdout
    return _LUT[f]
def build_isa():
    """the dispatch code (as g++ compiles it) with the cpuid and xgetbv instructions redirected to the harness"""
    import re
    d=os.path.join(scratch(),'isa'); os.makedirs(d,exist_ok=True); objs=[]
    def one(f):
        s=os.path.join(d,f+'.s')
        run(['g++','-S','-O2','-fno-rtti','-fno-exceptions','-mno-red-zone','-fno-strict-aliasing']+BASE+INC+[_src(f),'-o',s])
        t=open(s).read(); t=re.sub(r'(?m)\bcpuid\b(?=\s*($|#|;|\n))','call vf_cpuid',t); t=re.sub(r'\bxgetbv\b(?=\s*($|#|;|\n))','call vf_xgetbv',t); open(s,'w').write(t)
        run(['g++','-c',s,'-o',s+'.o']); return s+'.o'
    objs=pmap(one,['platform.cc','encoder.cc','decoder.cc','crc.cc'])
    def cu(s):
        o=os.path.join(d,'cu_'+os.path.basename(s)+'.o'); run(['g++','-O2','-fno-rtti','-fno-exceptions','-fno-strict-aliasing','-DCRCUTIL_USE_MM_CRC32=0']+BASE+INC+['-c',s,'-o',o]); return o
    objs+=pmap(cu,crcutil_sources())
    out=[]
    for h in ('false','true'):
        exe=os.path.join(d,'isa_'+h); run(['g++','-O2','-std=c++17','-w','-DHAS_AVX10='+h]+INC+[VERIF+'/harness/isa.cc']+objs+['-o',exe]); out.append(exe)
    return out
