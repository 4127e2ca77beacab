# job tables: property -> harness entries
def cb(file, entry, what, **k): return dict(kind='cbmc', file=file, entry=entry, what=what, **k)
def nat(file, name, bound, **k): return dict(kind='native', file=file, name=name, bound=bound, **k)
CHECKS = {}
P='harness/prim.cpp'; PORT=['-DGTL_HAVE_SSE2=0','-DGTL_HAVE_SSSE3=0','-mno-sse3']
CHECKS['C10'] = dict(level='proof', jobs=[
  cb(P,'H_group_sse2','SSE2 control group: Match/MatchEmpty/MatchEmptyOrDeleted/CountLeading/Convert exact for all 16-byte groups and tags',unwind=20),
  cb(P,'H_group_portable','portable control group: same contract on 8-byte groups (Match may over-approximate on full bytes only)',unwind=20),
  cb(P,'H_ctrl_preds','control-byte predicates and tags',unwind=2),
  cb(P,'H_bits','leading/trailing zero counts, builtin and portable, all 64-bit inputs',unwind=66),
  cb(P,'H_endian','unaligned little/big-endian load/store are inverse and byte-exact',unwind=10),
  cb(P,'H_capacity','capacity normalisation and growth allowance for all n < 2^60 (16-wide groups)',unwind=2),
  cb(P,'H_capacity','capacity normalisation and growth allowance for all n < 2^60 (8-wide groups)',unwind=2,cxx=PORT,name='H_capacity_port'),
  cb(P,'H_probe_step','probe sequence step contract: triangular, masked',unwind=2),
  cb(P,'H_probe_step_any','probe step from any state: the hypotheses of the coverage lemma (16-wide groups)',unwind=40),
  cb(P,'H_probe_step_any','probe step from any state: the hypotheses of the coverage lemma (8-wide groups)',unwind=40,cxx=PORT,name='H_probe_step_any_port'),
  dict(kind='script',name='lean_probe',cmd=['bash','@V/lean/check.sh'],what='triangular probing covers every slot, every table size (Lean: lean/Probe.lean, theorem probe_covers)',file='lean/Probe.lean',cost=30),
  cb(P,'H_probe_cover_4','one sweep covers each slot exactly once, 1 group',unwind=20),
  cb(P,'H_probe_cover_5','one sweep covers each slot exactly once, 2 groups',unwind=20),
  cb(P,'H_probe_cover_6','one sweep covers each slot exactly once, 4 groups',unwind=20),
  cb(P,'H_probe_cover_7','one sweep covers each slot exactly once, 8 groups',unwind=20),
  cb(P,'H_probe_cover_8','one sweep covers each slot exactly once, 16 groups',unwind=20),
  cb(P,'H_convert_15','in-place control conversion, capacity 15',unwind=70,level='bounded',bound='capacity 15'),
  cb(P,'H_convert_63','in-place control conversion, capacity 63',unwind=90,level='bounded',bound='capacity 63'),
  cb(P,'H_umul','128-bit multiply helper',unwind=2),
])

B='harness/bv.cpp'
HARD=['H_bv_cshl', 'H_bv_cshr', 'H_bv_shl', 'H_bv_shr', 'H_bw_or', 'H_bw_and', 'H_bw_xor', 'H_bw_sub', 'H_bw_ornot', 'H_bw_asg', 'H_bw_asg_same', 'H_bw_shl', 'H_bw_shr', 'H_bw_count', 'H_bw_eq', 'H_bw_contains', 'H_bw_disjoint']
SLOW=['H_bv_resize', 'H_bq_hash', 'H_bq_count', 'H_bw_findnext', 'H_bw_copyslow']
def bv(entry,what,**k):
    if entry in HARD: k.setdefault('tiers',('never',))
    if entry in SLOW: k.setdefault('tiers',('thorough',)); k.setdefault('timeout',600)
    k.setdefault('unwind',9); k.setdefault('timeout',240)
    return cb(B,entry,what,level='bounded',bound='vectors of at most 192 bits (3 words); contents, length, ranges, alignments and arguments symbolic',**k)
CHECKS['C11'] = dict(level='proof', jobs=[bv(e,w) for e,w in [
  ('H_bv_set1','set one bit'),('H_bv_reset1','reset one bit'),('H_bv_flip1','flip one bit'),('H_bv_assign1','assign one bit'),('H_bv_setall','set all'),('H_bv_resetall','reset all'),('H_bv_flipall','flip all'),
  ('H_bv_or','or-assign'),('H_bv_and','and-assign'),('H_bv_xor','xor-assign'),('H_bv_sub','difference-assign'),('H_bv_ornot','or-not'),('H_bv_self','operation with itself'),
  ('H_bv_cor','or'),('H_bv_cand','and'),('H_bv_cxor','xor'),('H_bv_csub','difference'),('H_bv_cnot','complement'),('H_bv_cshl','shift copy'),('H_bv_cshr','shift copy'),('H_bv_shl','shift down'),('H_bv_shr','shift up'),
  ('H_bv_ctor','construction'),('H_bv_resize','resize'),('H_bv_swap','swap'),('H_bv_ilist','assignment from words'),('H_bv_copy','copy')]])
CHECKS['C12'] = dict(level='proof', jobs=[bv(e,w) for e,w in [
  ('H_bw_set','set range'),('H_bw_reset','reset range'),('H_bw_flip','flip range'),('H_bw_one','single bit through a view'),('H_bw_or','or'),('H_bw_and','and'),('H_bw_xor','xor'),('H_bw_sub','difference'),('H_bw_ornot','or-not'),
  ('H_bw_asg','copy between vectors'),('H_bw_asg_same','copy within a vector, any overlap'),('H_bw_shl','shift down'),('H_bw_shr','shift up'),('H_bw_int','assign integer'),('H_bw_ilist','assign words'),('H_bw_copyslow','reference copy')]])
CHECKS['C13'] = dict(level='proof', jobs=[bv(e,w) for e,w in [
  ('H_bq_pred','any/none/every'),('H_bw_pred','view any/none/every'),('H_bq_count','count'),('H_bw_count','view count'),('H_bw_find','view find_first'),('H_bw_findnext','view find_next'),('H_bq_find','find_first/find_next'),
  ('H_bw_eq','view equality'),('H_bw_contains','view contains'),('H_bw_disjoint','view disjoint'),('H_bq_eq','equality'),('H_bq_rel','contains/disjoint/intersects'),('H_bw_difflen','different lengths'),('H_bq_hash','hash of equal vectors')]]+
  [cb(B,'H_bq_popcount','word population count, all inputs',unwind=70,tiers=('thorough',),timeout=600),cb(B,'H_bq_ctz','trailing zero count, all non-zero words',unwind=9)])
R='harness/par.cpp'
import re as _re, os as _os
_par=_re.findall(r'^(?:ENTRY|INS|INSI|INSV)\((\w+)[,)]',open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)),R)).read(),_re.M)
def par(e,**k):
  k.setdefault('replay',False); return cb(R,e,'parallel container operation '+e+' against the contract of the inner table and of the lock',unwind=10,object_bits=12,stubs=({} if 'H_lock' in e else {r'phmap_mix<8>::operator\(\)':'vf_mix'}),timeout=120,**k)
_par=[e for e in _par if e!='nm']
CHECKS['C06']=dict(level='proof',jobs=[par(f'H_par_{e}_mutex') for e in _par])
CHECKS['C07']=dict(level='proof',jobs=[par(f'H_par_{e}_shared') for e in _par]+[par('H_lock_'+x) for x in ('write','read','rw','pair')])

S='harness/small.cpp'
_small=open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)),S)).read()
def ents(pat): return sorted(set(_re.findall(pat,_small)))
C24J=[cb(S,e,'midpoint, whole domain of the type',unwind=2) for e in ents(r'HARNESS (H_mid_\w+)')]+[cb(S,'H_bs_'+t,'binary search, induction on the interval: the recursive call is checked against and replaced by the contract',unwind=2,recs={r'gtl::binary_search<':'vf_contract_bs_'+t},cost=20) for t in ('i32','u64','i64','dbl')]
C09J=[cb(S,'H_hash_'+t,'equal keys hash equal, every pair of values',unwind=2) for t in _re.findall(r'^HK\((\w+)|\) HK\((\w+)',_small,_re.M) for t in t if t]+[cb(S,e,'equal keys hash equal, every pair of values',unwind=2,stubs={r'^gtl::Combiner<unsigned long, 8>::operator\(\)':'vf_contract_comb'}) for e in ents(r'HARNESS (H_hash_[a-z]\w*)') if e!='H_hash_ptr']+[cb(S,e,'hash of pointers; combining step is a function',unwind=2) for e in ('H_hash_ptr','H_combiner')]
C23J=[cb(S,e,'guards, change tracking and timestamps, every value and flag',unwind=4) for e in ents(r'HARNESS (H_(?:guard|setunset|setvalue_\w+|change_\w+))\b')+['H_ts_new','H_ts_touch','H_ts_or','H_ts_set_int','H_ts_set_obj','H_ts_prov']]
IPS=_re.findall(r'^IP\((\w+),',_small,_re.M)
C21J=[cb(S,'H_ip_'+e,'ownership contract of one operation, any number of other owners',unwind=4,name=f'H_ip_{e}_{c}',cxx=[f'-DVF_CNT=gtl::thread_{c}_counter']) for e in IPS for c in ('unsafe','safe')]+[cb(S,e,'thread-safe counter under interference at every atomic operation',unwind=4,cxx=['-DVF_CNT=gtl::thread_safe_counter','-DVF_ATOMIC'],replay=False) for e in ('H_ts_release','H_ts_addref','H_ts_copies')]

# ---- hash tables: primitives (table.cpp), whole-table walks (tloop.cpp), public operations (tapi.cpp)
TB='harness/table.cpp'; TL='harness/tloop.cpp'; TA='harness/tapi.cpp'; _RS=r'raw_hash_set<.*>::'
_PROBE={r'probe_seq<\d+ul>::probe_seq\(':'vf_contract_probe',r'probe_seq<\d+ul>::next\(':'vf_contract_next'}
_MATCH=dict(_PROBE,**{r'Group\w+::Match\(':'vf_contract_match',r'BitMask<.*>::operator\+\+\(':'vf_contract_inc'})
_REBUILD={_RS+r'resize\(':'vf_contract_resize',_RS+r'drop_deletes_without_resize\(\)$':'vf_contract_dropd',_RS+r'destroy_slots\(':'vf_contract_destroyt'}
_GROW={_RS+r'rehash_and_grow_if_necessary\(':'vf_contract_grow'}
_TBS={'find_key':_MATCH,'find_impl':_MATCH,'has_element':_MATCH,'first_free':_PROBE,'set_ctrl_any':{},'erase_meta_any':{r'Group\w+Impl::Group\w+Impl\(':'vf_contract_group',_RS+r'set_ctrl\(':'vf_contract_setc'},
  'prepare':dict(_GROW,**{_RS+r'find_first_non_full\(':'vf_contract_ffnf'}),'grow':_REBUILD,'rehash':_REBUILD,'reserve':dict(_REBUILD,**_GROW),'skip':{r'CountLeadingEmptyOrDeleted\(':'vf_contract_count'}}
def tb(*names):
    r=[]
    for n in names:
        for w,cx in (('sse2',[]),('portable',PORT)):
            r.append(cb(TB,'H_t_'+n,f'hash table primitive {n}, every capacity, {w} groups',name=f'H_t_{n}_{w}',unwind=40,stubs=_TBS[n],cxx=cx,replay=False,cost=15 if n in('prepare','find_key','reserve') else 5,cbmc=['--sat-solver','cadical'] if n in('find_key','find_impl','has_element') else []))
            if n=='erase_meta_any': r+=[cb(TB,'H_t_erase_meta',f'erase_meta_only, capacity {c}, every content, {w} groups',name=f'H_t_erase_meta_{c}_{w}',unwind=60,cxx=cx+[f'-DVF_CAP={c}']) for c in ((1,3,7,15) if w=='sse2' else (1,3,7))]
    return r
_MIX={r'phmap_mix<8>::operator\(\)':'vf_contract_mix'}
_TLS=dict(_MIX,**{_RS+r'find_first_non_full\(':'vf_contract_ffnf',_RS+r'set_ctrl\(':'vf_contract_set_ctrl',_RS+r'initialize_slots\(':'vf_contract_init',r'^void gtl::Deallocate<':'vf_contract_dealloc',r'ConvertDeletedToEmptyAndFullToDeleted\(':'vf_contract_convert',_RS+r'reset_ctrl\(':'vf_contract_reset_ctrl',r'iterator::skip_empty_or_deleted\(':'vf_contract_skip',_RS+r'has_element\(.*unsigned long\)':'vf_contract_has_element'})
_MV={_RS+r'destroy_slots\(':'vf_contract_destroy_slots'}; _MG={_RS+r'_find_key<':'vf_contract_find_key',_RS+r'prepare_insert\(':'vf_contract_prepare',_RS+r'erase_meta_only\(':'vf_contract_erase_meta'}
_TLN={'convert':{},'resetctrl':{}}
_TLX={'copy':{_RS+r'resize\(':'vf_contract_resize'},'merge':_MG,'eraseif':_MG,**{x:_MV for x in('swap','swapself','movector','movectoral','moveasg')}}
_TLC={'resize':['hash_resize'],'drop':['hash_drop_deletes'],'destroy':['hash_destroy'],'clear':['hash_clear'],'convert':['hash_convert']}
def tl(*names): return [cb(TL,'H_tl_'+n,f'{n}: whole-table operation by loop invariant, every capacity and content',unwind=4,stubs=_TLN.get(n,dict(_TLS,**_TLX.get(n,{}))),cuts=_TLC.get(n),cxx=['-DGTL_VERIF'],cost=40 if n=='convert' else 5,replay=False) for n in names]
_TAS=dict(_MIX,**{_RS+r'_find_key<':'vf_contract_find_key',_RS+r'find_impl<':'vf_contract_find_impl',_RS+r'prepare_insert\(':'vf_contract_prepare',_RS+r'set_ctrl\(':'vf_contract_set_ctrl',_RS+r'erase_meta_only\(':'vf_contract_erase_meta',r'iterator::skip_empty_or_deleted\(':'vf_contract_skip'})
_ta=open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)),TA)).read(); _a,_b=_ta.index('#if VF_KIND<2\nOP'),_ta.index('#else\nOP'); _c=_ta.index('#endif',_b); _KIND=('flat_map','node_map','flat_set','node_set')
def ta(pat):
    r=[]
    for k in range(4):
        t=_ta[:_a]+(_ta[_a:_b] if k<2 else _ta[_b:_c])+_ta[_c:]
        r+=[cb(TA,'H_ta_'+e,f'{_KIND[k]} operation {e} against the contracts of the table primitives',name=f'H_ta_{e}_{_KIND[k]}',unwind=4,stubs=_TAS,cxx=[f'-DVF_KIND={k}'],replay=False,cost=1) for e in _re.findall(r'^OP\((\w+),',t,_re.M) if _re.fullmatch(pat,e)]
    return r
_LOOK=r'c?find|findh|findptr|contains|containsh|count|eqrange|at|catt'; _INS=r'lazyh?|single|emplace\w*|insert\w+|try\w*|asg\w*|index\w*'; _DEL=r'erase\w*'; _NODE=r'extract\w*|insno\w*'
HASHJ={'C01':tb('find_key','find_impl','set_ctrl_any','erase_meta_any','first_free','prepare')+tl('resize','drop')+ta(_LOOK+'|index'),
 'C02':tb('find_key','set_ctrl_any','erase_meta_any','prepare')+tl('eraseif')+ta(_INS+'|'+_DEL),
 'C03':tb('first_free','prepare','grow','rehash','reserve')+tl('resize','drop','clear','convert','resetctrl'),
 'C04':tb('skip')+tl('eraseif','copy')+ta(r'eqrange|c?find|erase\w*it'),
 'C05':tb('has_element')+tl('copy','equal','equal2','merge','swap','swapself','movector','movectoral','moveasg')+ta(_NODE),
 'C14':tl('resize','drop','destroy','clear','copy','merge','eraseif')+ta(_INS+'|'+_DEL+'|'+_NODE)}

# ---- vector: every operation (vec.cpp) against the contracts of the range primitives, which VF_PRIM proves by loop invariants
VC='harness/vec.cpp'
_V=r'gtl::vector<E, std::allocator<E> ?>::'
VST={'^'+_V+r'S_destroy_range\(E\*, E\*\)$':'vf_contract_destroy','^'+_V+r'S_uninitialized_fill_n\(E\*, unsigned long\)$':'vf_contract_fill0','^'+_V+r'S_uninitialized_fill_n\(E\*, unsigned long, E const&\)$':'vf_contract_fill',
 '^void '+_V+r'S_uninitialized_copy<E const\*>\([^:]*\)$':'vf_contract_ucopy','^void '+_V+r'S_uninitialized_copy<E\*>\([^:]*\)$':'vf_contract_ucopy','^void '+_V+r'S_uninitialized_copy<std::move_iterator<E\*> ?>\((?!.*lambda).*\)$':'vf_contract_umove',
 r'^E\* std::copy<E const\*, E\*>\(':'vf_contract_copy',r'^E\* std::copy<std::move_iterator<E\*>, E\*>\(':'vf_contract_smove',r'^E\* std::copy_backward<std::move_iterator<E\*>, E\*>\(':'vf_contract_bmove',
 '^'+_V+r'S_copy_n\(E\*, E const\*, unsigned long\)$':'vf_contract_copyn',r'^void std::fill<E\*, E>\(':'vf_contract_sfill','^'+_V+r'Impl::D_allocate\(unsigned long\)$':'vf_contract_alloc','^'+_V+r'Impl::D_deallocate\(E\*, unsigned long\)$':'vf_contract_dealloc'}
VSI=dict(VST,**{'^'+_V+r'make_window\(E\*, unsigned long\)$':'vf_contract_window','^'+_V+r'wrap_frame\(E\*, unsigned long, unsigned long\)$':'vf_contract_frame'})
_VCAP={'^'+_V+r'computeInsertCapacity\(unsigned long\)$':'vf_contract_inscap'}
_VNOT={0:(),1:(),2:('fill','ucopy','copy','copyn','sfill'),3:('ucopy','umove','smove','bmove')}
_vt=open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)),VC)).read(); _vcopy=set(_re.findall(r'^(?:OP|CT)\((\w+),',_vt[_vt.index('#if VF_KIND!=2\nOP'):_vt.index('OP(pushm')],_re.M)); _vall=_re.findall(r'^(?:OP|CT)\((\w+),',_vt,_re.M)+['frame','window','dtor','swap','movector','moveasg','inscap']
_VKIND=('elements with non-throwing moves and throwing copies','elements whose copies and moves throw','move-only elements whose moves throw','trivially copyable elements'); _VSLOW={'ins1','insm','insn','insr','emplc','empl0','erase','erase1','frame','window','resizev'}
def vec(kinds,drop=()):
    r=[]
    for k in kinds:
        base={a:b for a,b in VST.items() if b[12:] not in _VNOT[k]}
        for e in _vall:
            if (k==2 and e in _vcopy) or (k,e) in drop: continue
            st=base if e in('frame','window','inscap') else dict(VSI,**_VCAP) if e in('insn','insr') else VSI; st={a:b for a,b in st.items() if b[12:] not in _VNOT[k]}
            nc=['content'] if e in('clear','reservebig') else []
            if e in('clear','erase1','erase','selfasg','pop') or (e=='frame' and k in(0,3)) or (e=='window' and k in (0,3)) or (k==3 and e!='reservebig'): nc.append('exception')
            for cs in ((0,1) if e=='window' and k!=3 else (-1,)):
                r.append(cb(VC,'H_v_'+e,f'vector operation {e}, every size, capacity, position and argument, exceptions included; {_VKIND[k]}',name=f'H_v_{e}_{k}'+(f'_{cs}' if cs>=0 else ''),unwind=4,eh=True,object_bits=10,nocov=tuple(nc),cxx=[f'-DVF_KIND={k}',f'-DVF_CASE={cs}'],stubs=st,timeout=500,ptr=False,replay=False,cost=(60 if e=='window' else 20) if e in _VSLOW else 3,cbmc=['--sat-solver','cadical']))
        for e in {0:('destroy','fill0','fill','ucopy','copyn','umove'),1:('destroy','fill0','fill','ucopy','copyn','umove'),2:('destroy','fill0','umove'),3:('fill0','fill')}[k]:
            r.append(cb(VC,'H_vp_'+e,f'range primitive {e} by loop invariant, every range; {_VKIND[k]}',name=f'H_vp_{e}_{k}',unwind=4,eh=True,object_bits=10,nocov=('exception',),cxx=[f'-DVF_KIND={k}','-DVF_PRIM','-DGTL_VERIF'],cuts=['vec_'+dict(umove='copy',ucopy='copy').get(e,e)],stubs={a:b for a,b in VST.items() if b=='vf_contract_destroy'} if e in('fill','ucopy','umove') else {},timeout=500,ptr=False,replay=False,cost=15,cbmc=['--sat-solver','cadical']))
    return r

# ---- bounded native stand-ins (labelled bounded, never counted as proved) ----
TS=dict(san=False)
def thr(part,what): return nat('bounded/threads.cpp',f'threads_{part}',what,cxx=['-fsanitize=thread',f'-DVF_PART={part}'],san=False,cost=20)
HB='random operation sequences over a universe of at most 90 keys, six hash functions (identity, constant, colliding tags ...), capacities 0..255; compared with std::map after every step; quick tier a few thousand steps per container type'
for p in ('C01','C02','C03','C04','C05','C14'):
    CHECKS[p]=dict(level='proof',jobs=HASHJ[p]+[nat('bounded/hash.cpp','hash_1',HB,cxx=['-DVF_PART=1'],cost=40),nat('bounded/hash.cpp','hash_2',HB,cxx=['-DVF_PART=2'],cost=40),
      nat('bounded/hash.cpp','hash_1_portable',HB+' (portable 8-byte groups)',cxx=['-DVF_PART=1','-DGTL_HAVE_SSE2=0','-DGTL_HAVE_SSSE3=0'],cost=40)])
PBnd='random histories, 1..64 shards, std::mutex, std::shared_mutex and the null mutex, compared with std::map after every step'
CHECKS['C06']['jobs']+=[nat('bounded/parallel.cpp',f'parallel_{i}',PBnd,cxx=[f'-DVF_PART={i}'],cost=30) for i in (1,2)]
CHECKS['C07']['jobs']+=[nat('bounded/locks.cpp','locks','instrumented mutex, 4 shards, random histories of every locking operation; removal by another thread injected into every unlock/lock gap',cost=30),thr(7,'4 threads, random locking operations, ThreadSanitizer')]
CHECKS['C08']=dict(level='proof',jobs=[cb('harness/dump.cpp','H_dump','dump then load of the real code, every table and every failing read or write',unwind=9,stubs={_RS+r'initialize_slots\(':'vf_contract_init',_RS+r'destroy_slots\(':'vf_contract_destroyt',_RS+r'drop_deletes_without_resize\(\)$':'vf_contract_dropd'},replay=False)]+[par(f'H_par_{e}_{m}') for e in('dump','load') for m in('mutex','shared')]+[nat('bounded/dump.cpp','dump','containers of 0..1000 entries with erasures; every single read and write made to fail or stop short',cost=30)])
CHECKS['C09']=dict(level='proof',jobs=C09J+[nat('bounded/keyhash.cpp','keyhash','all 8/16-bit integers, boundary and random wider values, floating-point zeros, strings up to 300 bytes, pairs/tuples of those',cost=40)])
VB='vectors of at most 40 elements, random operation sequences, element types trivially copyable, relocatable, throwing and self-checking'
CHECKS['C15']=dict(level='proof',jobs=vec((0,3))+[nat('bounded/vec.cpp','vec_1',VB,cxx=['-DVF_PART=1'],cost=40)])
CHECKS['C16']=dict(level='proof',jobs=vec((1,2,0),drop=[(0,e) for e in ('window','frame','insn','erase','erase1','resizev','insm','emplc')])+[nat('bounded/vec.cpp','vec_2',VB+'; every construction made to throw in turn',cxx=['-DVF_PART=2'],cost=40)])
BB='random operation sequences on trees of up to a few thousand entries, node sizes 3..62, all comparators, compared with the std containers; whole structure verified'
CHECKS['C17']=dict(level='exploration',jobs=[nat('bounded/btree.cpp',f'btree_{i}',BB,cxx=[f'-DVF_PART={i}'],cost=40) for i in (1,2)])
CHECKS['C18']=dict(level='exploration',jobs=[nat('bounded/btree.cpp','btree_3',BB,cxx=['-DVF_PART=3'],cost=40)])
CHECKS['C19']=dict(level='exploration',jobs=[nat('bounded/lru.cpp','lru','random histories, limits 1..20, 1..16 shards, compared with a list model',cost=20),thr(19,'4 threads, ThreadSanitizer')])
CHECKS['C20']=dict(level='exploration',jobs=[nat('bounded/memo.cpp','memo','random call sequences, several signatures and limits',cost=20),thr(20,'4 threads, ThreadSanitizer')])
CHECKS['C21']=dict(level='proof',jobs=C21J+[nat('bounded/intr.cpp','intr','random histories over 6 pointers and 3 objects',cost=20),thr(21,'4 threads copying and releasing, ThreadSanitizer')])
CHECKS['C22']=dict(level='exploration',jobs=[nat('bounded/soa.cpp','soa','1..5 columns, up to 200 rows, random contents',cost=20)])
CHECKS['C23']=dict(level='proof',jobs=C23J+[nat('bounded/utils.cpp','utils','random histories of guards, changes and touches',cost=20)])
CHECKS['C24']=dict(level='proof',jobs=C24J+[nat('bounded/algo.cpp','algo','all 8-bit intervals, boundary and random wider ones, doubles of both signs, vectors up to 12 elements',cost=20)])
CHECKS['C11']['jobs'].append(nat('bounded/bitv.cpp','bitv_1','lengths 0..300 at word boundaries, random contents, random histories of length 60',cxx=['-DVF_PART=1'],cost=10))
CHECKS['C12']['jobs'].append(nat('bounded/bitv.cpp','bitv_2','random views of vectors up to 350 bits; all alignments of views into 192 bits',cxx=['-DVF_PART=2'],cost=10))
CHECKS['C13']['jobs']+=[nat('bounded/bitv.cpp',f'bitv_{i}','see C11, C12',cxx=[f'-DVF_PART={i}'],cost=10) for i in (1,2)]
NA={}
