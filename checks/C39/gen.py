# Programs that evaluate an expression over sprout twice: as a constant expression and, on laundered copies of the same arguments, at run time.
import random,sys,os
out,seed,tier=sys.argv[1],int(sys.argv[2]),sys.argv[3]
parts=sys.argv[4].split(",") if len(sys.argv)>4 else []
th=tier=="thorough"
R=random.Random(seed*104729+17)
HERE=os.path.dirname(os.path.abspath(__file__))
SUF={"float":"f","double":"","long double":"L"}
def fl(T,x):
    x=float(x)
    if T=="float":
        import struct
        x=struct.unpack("f",struct.pack("f",x))[0]
    s=repr(x)
    if "e" not in s and "." not in s: s+=".0"
    return ("%s%s"%(s,SUF[T]))
def ilit(T,v):
    if T in("int","short","signed char","unsigned char","char","unsigned short"): return "%d"%v if v>-2**31 else "(-2147483647 - 1)"
    if T=="unsigned": return "%uu"%v if 0 else "%du"%v
    if T in("long","long long"): return "%dLL"%v if v>-2**63 else "(-9223372036854775807LL - 1)"
    if T in("unsigned long","unsigned long long"): return "%dULL"%v
    return str(v)
LIM={"int":(-2**31,2**31-1),"short":(-2**15,2**15-1),"long":(-2**63,2**63-1),"long long":(-2**63,2**63-1),"unsigned":(0,2**32-1),"unsigned long":(0,2**64-1),"unsigned long long":(0,2**64-1),"unsigned char":(0,255),"unsigned short":(0,65535),"signed char":(-128,127)}
def rint(T):
    lo,hi=LIM[T]
    return R.choice([R.randint(lo,hi),R.randint(max(lo,-100),100),lo,hi,0,1,max(lo,-1),1<<R.randrange(0,hi.bit_length()),R.randint(lo,hi)>>R.randrange(0,hi.bit_length())])
def arr(n,k=6,lo=0): return [R.randint(lo,lo+k) for _ in range(n)]
def A(v,T="int"): return ("sprout::array<%s, %d>"%(T,len(v)),"{{%s}}"%",".join(ilit(T,x) if T not in SUF else fl(T,x) for x in v))
def S(s): return ("char[]",'"%s"'%s)
def I(v,T="int"): return (T,ilit(T,v))
def D(x,T="double"): return (T,fl(T,x))
F={}   # part -> list of (family, expression, args, ulps, guard)
def add(part,fam,expr,args,ulps=0,guard=""): F.setdefault(part,[]).append((fam,expr,args,ulps,guard))
N=(lambda q:q*4 if th else q)
FT=["float","double","long double"]
# ---------------------------------------------------------------- math
def u(a,b):
    def f():
        k=R.randrange(8)
        if k==0 and a<=0<=b: return 0.0
        if k==1 and a<=1<=b: return 1.0
        if k==2: return float(min(b,max(a,R.randint(int(max(a,-50)),int(min(b,50))))))
        if k==3 and a<=0.5<=b: return 0.5
        if k==4 and a<0<b: return R.choice([-1,1])*min(b,-a)*2.0**-R.randrange(1,20)
        return R.uniform(a,b)
    return f
APPROX={"sin":u(-50,50),"cos":u(-50,50),"tan":u(-50,50),"asin":u(-1,1),"acos":u(-1,1),"atan":u(-1e4,1e4),"sinh":u(-20,20),"cosh":u(-20,20),"tanh":u(-20,20),"asinh":u(-1e4,1e4),"acosh":u(1,1e4),"atanh":u(-.98,.98),"exp":u(-40,40),"exp2":u(-60,60),"exp10":u(-15,15),"expm1":u(-30,30),"log":u(1e-6,1e6),"log2":u(1e-6,1e6),"log10":u(1e-6,1e6),"log1p":u(-.98,1e6),"cbrt":u(-1e6,1e6),"erf":u(-5,5),"erfc":u(-5,5),"tgamma":u(.1,25),"lgamma":u(2.5,1e4),"sigmoid":u(-20,20)}
for f,g in APPROX.items():
    for T in FT:
        for _ in range(N(2)): add("math","math",f"sprout::math::{f}(a0)",[D(g(),T)],24)
for f in "sqrt floor ceil trunc round fabs abs logb ilogb logb2 ilogb2 signbit isnan isinf isfinite isnormal fpclassify float2_significand float2_exponent float_significand float_exponent fractional_part integer_part iszero is_integer iround lround llround ifloor iceil itrunc".split():
    ex={"logb":1,"ilogb":1,"logb2":1,"ilogb2":1}.get(f)
    for T in FT:
        for _ in range(N(2)):
            x=R.choice([R.uniform(-1e6,1e6),R.randint(-1000,1000)/2.0,R.uniform(-2,2),float(R.randint(-99,99)),R.choice([0.0,1.0,.5,-.5,2.5,-2.5,0.49999997])])
            if f=="sqrt": x=abs(x)
            if ex and x==0: x=3.5
            add("math","math",f"sprout::math::{f}(a0)",[D(x,T)],2 if f=="sqrt" and T=="long double" else 0)
for f in "floor ceil trunc round fabs signbit isnan isinf isfinite isnormal fpclassify fractional_part integer_part iszero sqrt sin cos tan atan tanh exp erf cbrt sinh asinh expm1".split():
    for T in FT:
        for v in("-0.0","std::numeric_limits<%s>::infinity()"%T,"-std::numeric_limits<%s>::infinity()"%T,"std::numeric_limits<%s>::quiet_NaN()"%T):
            if f in("sin","cos","tan") and "infinity" in v or f=="sqrt" and v[0]=="-" and v!="-0.0": continue
            if R.random()<(1 if th else .3): add("math","special values",f"sprout::math::{f}(a0)",[(T,v)],24)
for f in "fmod remainder fmax fmin copysign fdim isless isgreater islessequal isgreaterequal islessgreater isunordered quotient hypot pow atan2 equal_to not_equal_to less greater less_equal greater_equal log_a".split():
    for T in FT:
        for _ in range(N(3)):
            x,y=R.uniform(-1e3,1e3),R.uniform(-1e3,1e3)
            if R.random()<.3: x,y=float(R.randint(-20,20)),float(R.randint(1,9))
            if f=="pow": x,y=R.uniform(.01,30),R.uniform(-8,8)
            if f=="log_a": x,y=R.uniform(1.5,30),R.uniform(.01,300)
            if f in("fmod","remainder","quotient") and y==0: y=1.5
            add("math","math",f"sprout::math::{f}(a0, a1)",[D(x,T),D(y,T)],24 if f in("hypot","pow","atan2","log_a") else 0)
for T in FT:
    for _ in range(N(4)):
        x=R.choice([R.uniform(-1e6,1e6),R.uniform(-1,1),float(R.randint(1,99))]); e=R.randint(-30,30)
        for f in("ldexp","scalbn","scalbln"): add("math","math",f"sprout::math::{f}(a0, a1)",[D(x,T),I(e,"long" if f=="scalbln" else "int")])
        add("math","math","sprout::math::float2_sig_exp(a0).first",[D(x,T)]); add("math","math","sprout::math::float2_sig_exp(a0).second",[D(x,T)])
        add("math","math","sprout::math::frac_int(a0).first",[D(x,T)]); add("math","math","sprout::math::frac_int(a0).second",[D(x,T)])
        add("math","math","sprout::math::fma(a0, a1, a2)",[D(x,T),D(R.randint(-9,9)/4.,T),D(R.randint(-90,90)/8.,T)])
        add("math","math","sprout::math::rem_quo(a0, a1).first",[D(x,T),D(R.choice([1.5,3,-.75]),T)]); add("math","math","sprout::math::rem_quo(a0, a1).second",[D(x,T),D(R.choice([1.5,3,-.75]),T)])
        v=[D(R.randint(-40,40)/8.,T) for _ in range(4)]; C="sprout::complex<%s>"%T
        for e_,t in(("(a+b)",0),("(a-b)",0),("(a*b)",0),("(a/(b+%s(9,1)))"%C,0),("conj(a)",0),("exp(a)",64),("sin(a)",64),("cosh(a)",64),("sqrt(a)",64),("log(a+%s(7))"%C,64),("abs(a)",8),("norm(a)",0),("arg(a+%s(0,9))"%C,8)):
            add("math","complex",e_.replace("a+","A+").replace("a","A",0) if 0 else e_.replace("(a",f"({C}(a0,a1)").replace("+b","+B").replace("-b","-B").replace("*b","*B").replace("(b","(B").replace("B",f"{C}(a2,a3)") ,v,t)
for T in("int","unsigned","long long","unsigned long long"):
    for _ in range(N(4)):
        lo,hi=LIM[T]; a,b=R.randint(max(lo,-40000),40000),R.randint(max(lo,-40000),40000)
        add("math","integer","sprout::math::gcd(a0, a1)",[I(a,T),I(b,T)]); add("math","integer","sprout::math::lcm(a0, a1)",[I(a,T),I(R.randint(1,99),T)]); add("math","math","sprout::math::is_even(a0)",[D(a)]); add("math","math","sprout::math::is_odd(a0)",[D(a)])
for n in range(0,13): add("math","integer","sprout::math::factorial<double>(a0)",[I(n,"unsigned")])
for _ in range(N(8)): 
    a,b,c,d=[R.randint(-99,99) for _ in range(4)]
    for e in("+","-","*","/","<","=="): add("math","rational","(sprout::rational<int>(a0, a1) %s sprout::rational<int>(a2, a3))"%e+("" if e in"<==" else ".numerator() * 100000LL"),[I(a),I(b or 1),I(c or 2),I(d or 3)])
# ---------------------------------------------------------------- bits
for f in "bit_count bit_length bit_reverse clz ctz clrsb parity popcount bit_parity".split(): pass
BIT="popcount parity clz ctz clrsb cntt0 cntt1 cntl0 cntl1 rstls1b setls0b rstt1 sett0 maskt0 maskt1 maskt0ls1b maskt1ls0b isols0b isols1b bit_length bit_reverse".split()
for f in BIT:
    for T in("int","unsigned","long","unsigned long long","short","unsigned char"):
        for _ in range(N(2)):
            v=rint(T)
            if f in("clz","ctz") and v==0: v=1
            add("bits","bit",f"sprout::{f}(a0)",[I(v,T)])
for f in "testbit setbit rstbit flipbit setbitsge setbitsle rstbitsge rstbitsle flipbitsge flipbitsle shll shal shlr shar rotl rotr".split():
    for T in("unsigned","unsigned long","int","unsigned char"):
        for _ in range(N(2)):
            w={"unsigned":32,"unsigned long":64,"int":32,"unsigned char":8}[T]
            add("bits","bit",f"sprout::{f}(a0, a1)",[I(rint(T),T),I(R.randint(0,w-1))])
for n in(1,8,31,64,65,100):
    for _ in range(N(3)):
        B="sprout::bitset<%d>"%n; a,b=[I(R.randint(0,2**64-1),"unsigned long long") for _ in range(2)]; s=I(R.randint(0,n+3),"unsigned long")
        for e in("{0} & {1}","{0} | {1}","{0} ^ {1}","~{0}","{0} << a2","{0} >> a2","({0} << a2).count()","({0} & {1}).any()","{0}.all()","({0} == {1})","(cst({0}).flip(a3) >> 1).test(a3)","cst({0}).set(a3)","sprout::to_hash({0})"):
            add("bits","bitset",e.format(f"{B}(a0)",f"{B}(a1)"),[a,b,s,I(R.randrange(n),"unsigned long")])
# ---------------------------------------------------------------- algorithms (non modifying and fixed)
def sizes(): return R.choice([1,2,3,4,5,7,8,11])
def two(n=None,m=None,k=5): return [A(arr(n or sizes(),k)),A(arr(m or sizes(),k))]
X="a0.begin(), a0.end()"; Y="a1.begin(), a1.end()"
P1="bind_gt(2)"
NON=[("sprout::find(%s, a1) - a0.begin()"%X,1),("sprout::count(%s, a1)"%X,1),("sprout::find_if(%s, Gt()) - a0.begin()"%X,0),("sprout::find_if_not(%s, Gt()) - a0.begin()"%X,0),("sprout::count_if(%s, Gt())"%X,0),("sprout::all_of(%s, Gt())"%X,0),("sprout::any_of(%s, Gt())"%X,0),("sprout::none_of(%s, Gt())"%X,0),("sprout::adjacent_find(%s) - a0.begin()"%X,0),("sprout::max_element(%s) - a0.begin()"%X,0),("sprout::min_element(%s) - a0.begin()"%X,0),("sprout::minmax_element(%s).second - a0.begin()"%X,0),("sprout::is_sorted_until(%s) - a0.begin()"%X,0),("sprout::is_heap_until(%s) - a0.begin()"%X,0),("sprout::is_heap(%s)"%X,0),("sprout::search_n(%s, 2, a1) - a0.begin()"%X,1),
 ("sprout::lower_bound(%s, a1) - a0.begin()"%X,2),("sprout::upper_bound(%s, a1) - a0.begin()"%X,2),("sprout::equal_range(%s, a1).second - a0.begin()"%X,2),("sprout::binary_search(%s, a1)"%X,2),
 ("sprout::search(%s, %s) - a0.begin()"%(X,Y),3),("sprout::find_end(%s, %s) - a0.begin()"%(X,Y),3),("sprout::find_first_of(%s, %s) - a0.begin()"%(X,Y),3),("sprout::lexicographical_compare(%s, %s)"%(X,Y),3),("sprout::equal(%s, a1.begin())"%X,4),("sprout::mismatch(%s, a1.begin()).first - a0.begin()"%X,4),("sprout::is_permutation(%s, a1.begin())"%X,4),("sprout::includes(%s, %s)"%(X,Y),5),("sprout::tristate_lexicographical_compare(%s, %s)"%(X,Y),3),
 ("sprout::accumulate(%s, 3)"%X,0),("sprout::reduce(%s, 3)"%X,0),("sprout::inner_product(%s, a1.begin(), 1)"%X,4),("sprout::partition_point(%s, Lt()) - a0.begin()"%X,2),("sprout::is_partitioned(%s, Lt())"%X,2)]
def args_for(k,n=None):
    if k==0: return [A(arr(n or sizes()))]
    if k==1: return [A(arr(n or sizes(),3)),I(R.randint(0,4))]
    if k==2: return [A(sorted(arr(n or sizes()))),I(R.randint(-1,7))]
    if k==3: return [A(arr(n or sizes(),2)),A(arr(R.randint(1,3),2))]
    if k==4:
        m=n or sizes(); a=arr(m,3); b=a[:]; 
        if R.random()<.5: R.shuffle(b)
        if R.random()<.3: b[R.randrange(m)]^=1
        return [A(a),A(b)]
    if k==5: return [A(sorted(arr(n or sizes(),4))),A(sorted(arr(R.randint(1,4),4)))]
    if k==6: 
        m=n or sizes(); return [A(arr(m)),I(R.randint(0,m))]
    if k==7:
        m=n or sizes(); i=R.randint(0,m); a=arr(m); return [A(sorted(a[:i])+sorted(a[i:])),I(i)]
    if k==8: return [A(sorted(arr(4,4))),A(sorted(arr(4,4)))]
for e,k in NON:
    for _ in range(N(3)): add("algo","algorithm",e,args_for(k))
FIX=[("fixed::sort(a0)",0),("fixed::stable_sort(a0)",0),("fixed::reverse(a0)",0),("fixed::rotate(a0, a0.begin() + a1)",6),("fixed::remove(a0, a1)",1),("fixed::remove_if(a0, Gt())",0),("fixed::replace(a0, a1, 9)",1),("fixed::replace_if(a0, Gt(), 9)",0),("fixed::unique(a0)",0),("fixed::partition(a0, Gt())",0),("fixed::stable_partition(a0, Gt())",0),("fixed::make_heap(a0)",0),("fixed::next_permutation(a0).first",0),("fixed::prev_permutation(a0).second",0),("fixed::nth_element(a0, a0.begin() + (a1 ? a1 - 1 : 0))",6),("fixed::partial_sort(a0, a0.begin() + a1)",6),("fixed::inplace_merge(a0, a0.begin() + a1)",7),("fixed::sort_heap(sprout::fixed::make_heap(a0))",0),("fixed::swap_element(a0, a0.begin(), a0.begin() + (a1 ? a1 - 1 : 0))",6),("fixed::fill(a0, a1)",1),("fixed::clamp_range(a0, 1, 3)",0),("fixed::shuffle(a0, sprout::minstd_rand0(a1))",6),("fixed::random_swap(a0, sprout::minstd_rand0(a1))",6),("fixed::pop_heap(sprout::fixed::make_heap(a0))",0),
 ("fixed::copy<sprout::array<int, 5> >(%s)"%X,0),("fixed::transform<sprout::array<int, 6> >(%s, Twice())"%X,0),("fixed::merge<sprout::array<int, 9> >(%s, %s)"%(X,Y),5),("fixed::set_union<sprout::array<int, 9> >(%s, %s)"%(X,Y),5),("fixed::set_intersection<sprout::array<int, 9> >(%s, %s)"%(X,Y),5),("fixed::set_difference<sprout::array<int, 9> >(%s, %s)"%(X,Y),5),("fixed::set_symmetric_difference<sprout::array<int, 9> >(%s, %s)"%(X,Y),5),("fixed::copy_if<sprout::array<int, 9> >(%s, Gt())"%X,0),("fixed::remove_copy<sprout::array<int, 9> >(%s, a1)"%X,1),("fixed::reverse_copy<sprout::array<int, 9> >(%s)"%X,0),("fixed::unique_copy<sprout::array<int, 9> >(%s)"%X,0),("fixed::copy_while<sprout::array<int, 9> >(%s, Gt())"%X,0),
 ("fixed::partial_sum(a0, %s)"%X,0),("fixed::adjacent_difference(a0, %s)"%X,0),("fixed::inclusive_scan(a0, %s)"%X,0),("fixed::exclusive_scan(a0, %s, 2)"%X,0),("fixed::iota(a0, a1)",1),
 ("fit::sort(sprout::sub(a0, 0, a1))",6),("fit::copy_if(%s, sprout::pit<sprout::array<int, 9> >(), Gt())"%X,0),("fit::remove(a0, a1)",1),("fit::unique(a0)",0),("fit::set_union(%s, %s, sprout::pit<sprout::array<int, 9> >())"%(X,Y),5),("fit::merge(%s, %s, sprout::pit<sprout::array<int, 9> >())"%(X,Y),5)]
for e,k in FIX:
    if "partial_sum" in e or "adjacent" in e or "_scan" in e: e=e.replace("(a0, a0.begin","<sprout::array<int, 11> >(a0.begin")
    for _ in range(N(3)): add("fixed","fixed/fit algorithms","sprout::"+e,args_for(k))
# ---------------------------------------------------------------- C++14 in place algorithms
MX="a.begin(), a.end()"
MUT=[("sort","sprout::sort(%s)"%MX,0),("stable_sort","sprout::stable_sort(%s)"%MX,0),("reverse","sprout::reverse(%s)"%MX,0),("rotate","sprout::rotate(a.begin(), a.begin() + b, a.end())",6),("remove","sprout::remove(%s, b)"%MX,1),("remove_if","sprout::remove_if(%s, Gt())"%MX,0),("replace","sprout::replace(%s, b, 9)"%MX,1),("replace_if","sprout::replace_if(%s, Gt(), 9)"%MX,0),("unique","sprout::unique(%s)"%MX,0),("partition","sprout::partition(%s, Gt())"%MX,0),("stable_partition","sprout::stable_partition(%s, Gt())"%MX,0),("make_heap","sprout::make_heap(%s)"%MX,0),("heap_sort","sprout::make_heap(%s); sprout::sort_heap(%s)"%(MX,MX),0),("push_heap","sprout::make_heap(a.begin(), a.end() - 1); sprout::push_heap(%s)"%MX,0),("pop_heap","sprout::make_heap(%s); sprout::pop_heap(%s)"%(MX,MX),0),("next_permutation","sprout::next_permutation(%s)"%MX,0),("prev_permutation","sprout::prev_permutation(%s)"%MX,0),("nth_element","sprout::nth_element(a.begin(), a.begin() + b, a.end())",6),("partial_sort","sprout::partial_sort(a.begin(), a.begin() + b, a.end())",6),("inplace_merge","sprout::inplace_merge(a.begin(), a.begin() + b, a.end())",7),("fill","sprout::fill(%s, b)"%MX,1),("fill_n","sprout::fill_n(a.begin(), b, 8)",6),("transform","sprout::transform(%s, a.begin(), Twice())"%MX,0),("clamp_range","sprout::clamp_range(%s, a.begin(), 1, 3)"%MX,0),("shuffle","sprout::shuffle(%s, sprout::minstd_rand0(b))"%MX,6),("random_shuffle_swap","sprout::random_swap(%s, sprout::minstd_rand0(b))"%MX,6),("swap_ranges","sprout::swap_ranges(%s, b.begin())"%MX,4),("copy","sprout::copy(b.begin(), b.end(), a.begin())",4),("copy_backward","sprout::copy_backward(b.begin(), b.end(), a.end())",4),("copy_if","sprout::copy_if(b.begin(), b.end(), a.begin(), Gt())",4),("copy_n","sprout::copy_n(b.begin(), 1, a.begin())",4),("reverse_copy","sprout::reverse_copy(b.begin(), b.end(), a.begin())",4),("rotate_copy","sprout::rotate_copy(b.begin(), b.begin() + 1, b.end(), a.begin())",4),("unique_copy","sprout::unique_copy(b.begin(), b.end(), a.begin())",4),("remove_copy","sprout::remove_copy(b.begin(), b.end(), a.begin(), 1)",4),("replace_copy","sprout::replace_copy(b.begin(), b.end(), a.begin(), 1, 7)",4),("move","sprout::move(b.begin(), b.end(), a.begin())",4),("partial_sort_copy","sprout::partial_sort_copy(b.begin(), b.end(), a.begin(), a.end())",4),
 ("merge","auto r = sprout::array<int, 8>(); sprout::merge(%s, b.begin(), b.end(), r.begin()); a[0] = r[2] + 10 * r[6]"%MX,8),("set_union","auto r = sprout::array<int, 8>(); sprout::set_union(%s, b.begin(), b.end(), r.begin()); a[0] = r[2] + 10 * r[6]; a[1] = r[5]"%MX,8),("set_intersection","auto r = sprout::array<int, 8>(); sprout::set_intersection(%s, b.begin(), b.end(), r.begin()); a[0] = r[0] + 10 * r[1]"%MX,8),("set_difference","auto r = sprout::array<int, 8>(); sprout::set_difference(%s, b.begin(), b.end(), r.begin()); a[0] = r[0] + 10 * r[1]"%MX,8),("set_symmetric_difference","auto r = sprout::array<int, 8>(); sprout::set_symmetric_difference(%s, b.begin(), b.end(), r.begin()); a[0] = r[0] + 10 * r[1] + 100 * r[4]"%MX,8),
 ("partial_sum","sprout::partial_sum(%s, a.begin())"%MX,0),("adjacent_difference","auto r = a; sprout::adjacent_difference(r.begin(), r.end(), a.begin())",0),("iota","sprout::iota(%s, b)"%MX,1),("inclusive_scan","sprout::inclusive_scan(%s, a.begin())"%MX,0),("iter_swap","sprout::iter_swap(a.begin(), a.end() - 1)",0),("generate","sprout::generate(%s, Five())"%MX,0)]
G14="#if __cplusplus >= 201402L && !defined(SPROUT_CONFIG_DISABLE_CXX14_CONSTEXPR)"
for nm,body,k in MUT:
    for _ in range(N(3)): add("cxx14","C++14 algorithms","m_%s(a0%s)"%(nm,"" if k==0 else ", a1"),args_for(k),0,G14)
# ---------------------------------------------------------------- text
WORDS=["","a","ab","abc","hello","Sprout","aaab","-12","+7"," 42","0x1f","077","12345","2147483647","-2147483648","99x","xyz","3.25","-0.5","1e3","6.02e-3","10101"]
def word(): return R.choice(WORDS) if R.random()<.5 else "".join(R.choice("abAB 12") for _ in range(R.randint(0,8)))
STR="sprout::basic_string<char, 24>"
for _ in range(N(6)):
    for e in("{0}.find(a1)","{0}.rfind(a1)","{0}.find_first_of(a1)","{0}.find_last_of(a1)","{0}.find_first_not_of(a1)","{0}.find_last_not_of(a1)","{0}.compare(a1)","({0} + {0}).size()","({0} == a1)","({0} < a1)","{0}.substr(a2 % ({0}.size() + 1))","{0}.substr(a2 % ({0}.size() + 1), 2)","({0} + {0})","sprout::to_hash({0})"): add("text","string",e.format("sprout::string_t<24>::type(a0)"),[S(word()),S(word()),I(R.randint(0,9),"unsigned long")])
    for e in("sprout::strlen(a0)","sprout::strcmp(a0, a1)","sprout::strncmp(a0, a1, 3)","sprout::strspn(a0, a1)","sprout::strcspn(a0, a1)","sprout::strcoll(a0, a1)"): add("text","cstring",e,[S(word()),S(word())])
    s=word() or "q"
    for e in("sprout::strchr(a0, a1) - a0","sprout::strrchr(a0, a1) - a0"): add("text","cstring",e,[S(s),("char","'%s'"%R.choice(s))])
    i=R.randrange(len(s)); add("text","cstring","sprout::strstr(a0, a1) - a0",[S(s),S(s[i:i+R.randint(1,4)])])
for f,ws in(("atoi",["-12","+7"," 42","077","12345","2147483647","-2147483648","99x","xyz",""]),("atol",["-12","+7"," 42","1234567890123","-9223372036854775808","99x"]),("atoll",["9223372036854775807","-5"])):
    for w in ws: add("text","cstdlib",f"sprout::{f}(a0)",[S(w)])
for w,b in(("-12",10),("ff",16),("0x1f",16),("0x1f",0),("077",0),("077",8),("zz",36),("10101",2),("99999999999999999999",10),("-99999999999999999999",10),("  +42abc",10)):
    add("text","cstdlib","sprout::strtol(a0, nullptr, a1)",[S(w),I(b)]); add("text","cstdlib","sprout::strtoull(a0, nullptr, a1)",[S(w),I(b)])
for w in("3.25","-0.5","1e3","6.02e-3","10","0.1","123456.789"," 7.5x","1e-5"):
    add("text","cstdlib","sprout::strtod(a0, nullptr)",[S(w)]); add("text","cstdlib","sprout::atof(a0)",[S(w)]); add("text","cstdlib","sprout::strtof(a0, nullptr)",[S(w)])
for T in("int","long long","unsigned","unsigned long long","short"):
    for _ in range(N(3)): add("text","to_string","sprout::to_string(a0)",[I(rint(T),T)])
for _ in range(N(6)): add("text","to_string","sprout::to_string(a0)",[D(R.choice([0.0,1.5,-2.25,R.uniform(-1000,1000),R.uniform(0,1)]))])
for f in "isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper".split():
    for _ in range(N(2)): add("text","cctype",f"sprout::ascii::{f}(a0)",[("char","char(%d)"%R.randint(0,127))])
for _ in range(N(5)):
    w=word(); add("text","checksum","sprout::md5().c_process_bytes(sprout::string_t<24>::type(a0).data(), a1)()",[S(w),I(len(w),"unsigned long")]) if 0 else None
    add("text","checksum","sprout::sha1().c_process_byte(a0).c_process_byte(a1)()",[I(R.randrange(256),"unsigned char"),I(R.randrange(256),"unsigned char")]); add("text","checksum","sprout::md5().c_process_byte(a0).c_process_byte(a1)()",[I(R.randrange(256),"unsigned char"),I(R.randrange(256),"unsigned char")]); add("text","checksum","sprout::sum16(a0).c_process_byte(a1)()",[I(R.randrange(65536),"unsigned short"),I(R.randrange(256),"unsigned char")])
    add("text","uuid","sprout::uuids::make_uuid5_url()(a0)",[S(w.replace(" ","_"))]); add("text","uuid","sprout::uuids::make_uuid3_dns()(a0)",[S(w.replace(" ","_"))]); add("text","uuid","sprout::uuids::make_uuid4(a0)",[I(R.randint(1,10**6))]); add("text","uuid","sprout::uuids::to_string(sprout::uuids::make_uuid4(a0))",[I(R.randint(1,10**6))])
# ---------------------------------------------------------------- random numbers
ENG="minstd_rand0 minstd_rand rand48 taus88 ecuyer1988 hellekalek1995 kreutzer1986".split()
for e in ENG:
    E="sprout::random::%s"%e
    for _ in range(N(3)):
        s=I(R.randint(1,2**31-2))
        add("rand","engines",f"draw({E}(a0), 1)",[s]); add("rand","engines",f"draw({E}(a0), a1)",[s,I(R.randint(0,12))])
        for d,t in(("sprout::random::uniform_int_distribution<int>(-5, 17)",0),("sprout::random::uniform_smallint<int>(0, 9)",0),("sprout::random::uniform_01<double>()",0),("sprout::random::uniform_real_distribution<double>(-2.5, 4)",0),("sprout::random::bernoulli_distribution<>(0.375)",0),("sprout::random::geometric_distribution<int>(0.25)",0),("sprout::random::normal_distribution<double>(1, 2)",256),("sprout::random::binomial_distribution<int>(9, 0.25)",0),("sprout::random::poisson_distribution<int>(3.5)",0)):
            if e in("minstd_rand0","rand48","taus88","ecuyer1988"): add("rand","distributions",f"call({d}, {E}(a0))",[s],t)
for _ in range(N(1)): add("rand","engines","draw(sprout::random::mt19937(a0), a1)",[I(R.randint(1,10**6),"unsigned"),I(R.randint(0,3))])
add("rand","engines","draw(sprout::random::mt19937_64(a0), a1)",[I(R.randint(1,10**6),"unsigned long"),I(2)])
# ---------------------------------------------------------------- containers, tuples, functional objects
for _ in range(N(6)):
    n=R.randint(2,7); a,b=A(arr(n)),A(arr(n)); i=I(R.randrange(n),"unsigned long")
    for e in("a0[a2]","a0.at(a2)","a0.front()","a0.back()","(a0 == a1)","(a0 < a1)","(a0 >= a1)","sprout::to_hash(a0)","*(a0.rbegin() + a2)","sprout::sub(a0, 0, a2).size()","sprout::container_traits<sprout::array<int, %d> >::static_size + a0.size()"%n,"sprout::push_back(a0, 7)","sprout::push_front(a0, 7)","sprout::pop_back(a0)","sprout::append_back(a0, a1)","sprout::distance(a0.begin(), a0.end())","*sprout::next(a0.begin(), a2)","*sprout::prev(a0.end(), a2 + 1)","sprout::tuples::get<1>(a0)"): add("misc","containers",e,[a,b,i])
    x,y,z=I(R.randint(-5,5)),I(R.randint(-5,5)),D(R.randint(-9,9)/2.)
    for e in("(sprout::make_pair(a0, a2) < sprout::make_pair(a1, a2))","(sprout::make_tuple(a0, a1, a2) == sprout::make_tuple(a1, a1, a2))","sprout::tuples::get<2>(sprout::make_tuple(a0, a1, a2))","cst(sprout::optional<int>(a0)).get()","(sprout::optional<int>(a0) < sprout::optional<int>(a1))","sprout::optional<int>().value_or(a0)","sprout::plus<>()(a0, a1)","sprout::less<>()(a0, a1)","sprout::cbind(sprout::minus<>(), sprout::placeholders::_2, sprout::placeholders::_1)(a0, a1)","sprout::hash<int>()(a0)","sprout::hash_combine(a0, a1)","sprout::min(a0, a1)","sprout::max(a0, a1)","sprout::minmax(a0, a1).second","sprout::clamp(a0, -2, a1 + 10)","sprout::get<int>(cst(sprout::variant<int, double>(a0)))"): add("misc","utilities",e,[x,y,z])
    v=[D(R.randint(-16,16)/4.) for _ in range(6)]; V0,V1="sprout::darkroom::coords::vector3d(a0, a1, a2)","sprout::darkroom::coords::vector3d(a3, a4, a5 + 9)"
    for e in("dot({0}, {1})","length_sq({0})","length({1})"): add("misc","darkroom","sprout::darkroom::coords::"+e.format(V0,V1),v,2)
    for j in(0,1,2):
        for e in("cross({0}, {1})","add({0}, {1})","normalize({1})","reflect({0}, {1})"): add("misc","darkroom",f"sprout::tuples::get<{j}>(sprout::darkroom::coords::"+e.format(V0,V1)+")",v,8)
    for f in("sinusoid","sawtooth","triangle","square"):
        add("misc","waves",f"*(sprout::{f}_iterator<double>(0, 0.0625) + a0)",[I(R.randint(0,60))],64); add("misc","waves",f"sprout::{f}_iterator<double>(0, 0.0625)[a0]",[I(R.randint(0,60))],64)
    add("misc","weed","sprout::weed::parse(sprout::string_t<8>::type(a0), sprout::weed::uint_).success()",[S(R.choice(["12","7","a1","","99"]))]); add("misc","weed","sprout::weed::parse(sprout::string_t<8>::type(a0), sprout::weed::int_).attr()",[S(R.choice(["12","-7","1","99"]))])
    add("misc","brainfuck",'sprout::brainfuck::exec_range<16>(sprout::string_t<32>::type(a0), sprout::pit<sprout::array<char, 4> >(), sprout::string_t<4>::type(a1))',[S(R.choice(["+++++[>+++++++++++++<-]>.+.+.",",.,.","++++++++[>++++++++<-]>+.>"])),S("xy")])
# ---------------------------------------------------------------- emission
INC=["array","complex","rational","algorithm","numeric","string","cstring","cstdlib","cctype","ctype/ascii","checksum","uuid","random","math","bitset","bit/operation","tuple","optional","variant","functional","container","operation","sub_array","utility","brainfuck","weed"]
HEAD='''#include "%s/ce.hpp"
%s
struct Gt { template<class T> constexpr bool operator()(T const& x) const { return x > 2; } };
struct Lt { template<class T> constexpr bool operator()(T const& x) const { return x < 3; } };
struct Twice { template<class T> constexpr T operator()(T const& x) const { return x * 2 + 1; } };
struct Five { constexpr int operator()() const { return 5; } };
%s
'''
PRE={"rand":'''template<class D, class E> constexpr auto call(D const& d, E const& e) -> typename D::result_type { return d(e).result(); }
template<class R> constexpr typename R::result_type draw_(R const& r, int n) { return n == 0 ? r.result() : draw_(r(), n - 1); }
template<class E> constexpr typename E::result_type draw(E const& e, int n) { return draw_(e(), n); }
''',"cxx14":G14+"\n"+"".join("template<class A, class B = int> constexpr A m_%s(A a, B b = B()) { %s; (void)b; return a; }\n"%(nm,body) for nm,body,k in MUT)+"#endif\n"}
INCP={"math":["array","complex","rational","math","math/greater"],"bits":["bitset","bit/operation","functional/hash"],"algo":["array","algorithm","numeric","container","functional"],"fixed":["array","algorithm","numeric","container","functional","random","sub_array"],"cxx14":["array","algorithm","numeric","container","functional","random"],"text":["string","cstring","cstdlib","cctype","ctype/ascii","checksum","uuid","functional/hash"],"rand":["random"],"misc":["array","container","operation","tuple","optional","variant","functional","utility","algorithm","darkroom","iterator/sinusoid_iterator","iterator/sawtooth_iterator","iterator/triangle_iterator","iterator/square_iterator","weed","brainfuck","string"]}
SPLIT={"math":4,"fixed":2,"misc":2,"text":2}
def q(s): return '"'+s.replace("\\","\\\\").replace('"','\\"')+'"'
for part,cases in F.items():
    if parts and part not in parts: continue
    ns=SPLIT.get(part,1)*(3 if th else 1)
    for sh in range(ns):
        o=[HEAD%(HERE,"\n".join("#include <sprout/%s.hpp>"%i for i in INCP[part]),PRE.get(part,""))]
        fams={}
        for i,(fam,expr,args,ulps,guard) in list(enumerate(cases))[sh::ns]:
            if guard: o.append(guard)
            decl=" ".join("static constexpr char a%d[] = %s;"%(j,v) if T=="char[]" else "static constexpr %s a%d = %s;"%(T,j,v) for j,(T,v) in enumerate(args))
            o.append("namespace n%d { %s\nstatic constexpr auto k = %s; }"%(i,decl,expr))
            loc=" ".join("const auto a%d = launder_(n%d::a%d); (void)a%d;"%(j,i,j,j) for j in range(len(args)))
            text=expr+" with "+", ".join("a%d=%s"%(j,v) for j,(T,v) in enumerate(args))
            o.append("static void t%d() { %s auto r = %s; judge(%s, %s, n%d::k, r, %g); }"%(i,loc,expr,q(fam),q(text),i,ulps))
            if guard: o.append("#else\nstatic void t%d() {}\n#endif"%i)
            fams.setdefault(fam,[]).append(i)
        for fam,l in fams.items():
            g=G14 if part=="cxx14" else None
            nm="".join(ch if ch.isalnum() else "_" for ch in fam)
            if g: o.append(g)
            o.append("MON_TEST(%s) { %s }"%(nm," ".join("t%d();"%i for i in l)))
            if g: o.append("#else\nMON_TEST(%s) { MON_CASE(c, \"skipped: no C++14 constexpr\", 0); c.ok(true, \"\"); }\n#endif"%nm)
        open(os.path.join(out,"%s%d.cpp"%(part,sh)),"w").write("\n".join(o)+"\n")
