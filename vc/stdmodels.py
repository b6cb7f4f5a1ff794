"""Contracts assumed for the C++ standard library (trusted): abstract models of std::vector, std::string and of
functions whose result only feeds messages.  Everything here is listed in the evidence as assumed."""
import re, z3, functools
from .engine import *

@functools.lru_cache(maxsize=None)
def parse(dem):
    """demangled function name -> (scope list, method (with template args), params string)"""
    d = re.sub(r'\s*(const|volatile|&|&&|\[abi:\w+\]|\[clone [^\]]*\])*$', '', dem) if not dem.endswith(')') else dem
    for suf in (' const', ' const &', ' const&', ' &&', ' &', ' volatile'):
        while d.endswith(suf): d = d[:-len(suf)]
    if not d.endswith(')'): return ([], d, '')
    depth = 0; i = len(d) - 1
    while i >= 0:
        c = d[i]
        if c == ')': depth += 1
        elif c == '(':
            depth -= 1
            if depth == 0: break
        i -= 1
    head, params = d[:i], d[i + 1:-1]
    # split head at depth 0
    toks = []; depth = 0; cur = ''; k = 0
    m = re.search(r'operator\s?(\(\)|<=>|<<=?|>>=?|->\*?|<=?|>=?)', head)
    prot = (m.start(), m.end()) if m else (-1, -1)
    sp = -1; parts = []; last = 0
    for k, c in enumerate(head):
        if prot[0] <= k < prot[1]: continue
        if c in '<([{': depth += 1
        elif c in '>)]}': depth -= 1
        elif depth == 0 and c == ' ' and not head[:k].endswith('operator') and not re.search(r'operator [\w: ]*$', head[:k]): sp = k; 
    h = head[sp + 1:]
    depth = 0; k = 0
    m = re.search(r'operator\s?(\(\)|<=>|<<=?|>>=?|->\*?|<=?|>=?)', h); prot = (m.start(), m.end()) if m else (-1, -1)
    while k < len(h):
        c = h[k]
        if prot[0] <= k < prot[1]: k += 1; continue
        if c in '<([{': depth += 1
        elif c in '>)]}': depth -= 1
        elif depth == 0 and h.startswith('::', k): parts.append(h[last:k]); last = k + 2; k += 1
        k += 1
    return (parts, h[last:], params)

def targs(s):
    """top level template arguments of 'name<a, b>'"""
    i = s.find('<')
    if i < 0: return []
    out = []; depth = 0; cur = ''
    for c in s[i + 1:s.rfind('>')]:
        if c in '<([{': depth += 1
        elif c in '>)]}': depth -= 1
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    out.append(cur.strip())
    return out

SIZES = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8}
def tsize(m, t):
    t = t.strip()
    for pre in ('const ',):
        if t.startswith(pre): t = t[len(pre):]
    if t.endswith(' const'): t = t[:-6]
    if t.endswith('*') or t.endswith('&'): return 8
    if t in SIZES: return SIZES[t]
    if t.startswith('std::__cxx11::basic_string<'): return 32
    if t.startswith('std::vector<'): return 24
    if t.startswith('std::shared_ptr<') or t.startswith('std::basic_string_view<'): return 16
    if t.startswith(('std::unique_ptr<', 'std::reference_wrapper<')): return 8
    if t in m.layouts: return m.layouts[t]['size']
    for k, v in m.layouts.items():
        if k.replace('> >', '>>') == t: return v['size']
    raise Unsupported('size of type ' + t)

class Seq:
    """abstract std::vector / std::string value: length and data region"""
    __slots__ = ('reg', 'len')
    def __init__(s, reg, n): s.reg, s.len = reg, n
    def __repr__(s): return f'Seq({s.reg},{s.len})'
    def havoc(s, e, st):
        n = z3.BitVec(fresh_name('len'), 64); st.assume(z3.ULT(n, 1 << 40))
        r = st.wregion(s.reg); r.length = n
        for k in list(r.arrs): r.arrs[k] = z3.Const(fresh_name(r.name), r.arrs[k].sort())
        return Seq(s.reg, n)

def new_seq(e, st, stride, n=0, name='seq', cells=None):
    p = st.alloc(name, stride=stride, length=n, origin='heap', meta={'cells': True} if cells else None)
    return Seq(p.r, n)
def get_seq(e, st, p, stride, nbytes=24):
    """abstract value stored at p (created lazily for lazily initialised objects)"""
    v = st.regs[p.r].cells.get(p.o) if isinstance(p, Ptr) and p.r in st.regs else None
    if v is not None and isinstance(v[1], Seq): return v[1]
    if isinstance(p, Ptr) and p.r in st.regs:
        r = st.regs[p.r]
        if r.lazy and v is None:
            n = z3.BitVec(fresh_name(r.name + '.len'), 64); st.assume(z3.ULT(n, 1 << 40))
            s = new_seq(e, st, stride, n, r.name + f'+{p.o}.data')
            st.regs[s.reg].origin = 'pre'
            put_seq(e, st, p, s, nbytes, init=True)
            return s
    raise Unsupported(f'no container value at {p} in {st.regs[p.r].name if isinstance(p, Ptr) and p.r in st.regs else "?"} ({v})')
def put_seq(e, st, p, s, nbytes=24, init=False):
    r = st.wregion(p.r)
    e.cell_clear(r, p.o, nbytes); r.cells[p.o] = (nbytes, s)
    if not init: st.writes.add((p.r, p.o, nbytes))
def set_len(e, st, p, s, n, nbytes=24):
    n = norm(n)
    st.wregion(s.reg).length = n
    put_seq(e, st, p, Seq(s.reg, n), nbytes)
def add(a, b):
    if is_conc(a) and is_conc(b): return mask(a + b, 64)
    return norm(to_bv(a, 64) + to_bv(b, 64))
def sub(a, b):
    if is_conc(a) and is_conc(b): return mask(a - b, 64)
    return norm(to_bv(a, 64) - to_bv(b, 64))

class SeqModel:
    def __init__(s, eng, nbytes=24, copy_elem=None):
        s.e = eng; s.nbytes = nbytes
    def bytes_append(s, st, q, src, n):
        """append n bytes from src pointer"""
        e = s.e
        L = q.len
        newlen = add(L, n)
        r = st.wregion(q.reg); r.length = newlen
        d = Ptr(q.reg, L, 0)
        return newlen, d

def vec_model(e, st, a, f, ins, string=False):
    scope, meth, params = parse(f['dem'])
    cls = scope[-1] if scope else ''
    nb = 32 if string else 24
    stride = 1 if string else tsize(e.m, targs('::'.join(scope))[0] if False else targs(scope[-1])[0])
    mname = re.sub(r'<.*', '', meth) if not meth.startswith('operator') else meth
    S = lambda p=None: get_seq(e, st, p or a[0], stride, nb)
    # sret functions are not expected here
    this = a[0]
    simple = stride == 1 or True
    if mname in ('vector', 'basic_string'):
        np_ = params.count(',') + 1 if params else 0
        if params in ('', 'std::allocator<%s> const&' % 'char') or params.startswith('std::allocator') and ',' not in params:
            put_seq(e, st, this, new_seq(e, st, stride, 0, 'vec' if not string else 'str'), nb, init=False); return None
        if '&&' in params and ('vector' in params or 'basic_string' in params):
            s = S(a[1]); put_seq(e, st, this, s, nb); put_seq(e, st, a[1], new_seq(e, st, stride, 0, 'moved'), nb); return None
        if re.match(r'(std::vector|std::__cxx11::basic_string).* const&', params):
            s = S(a[1]); t = new_seq(e, st, stride, s.len, 'copy')
            copy_region(e, st, s.reg, t.reg); put_seq(e, st, this, t, nb); return None
        if string and params.startswith('char const*, std::allocator'):
            n = model_strlen(e, st, [a[1]], f, ins); t = new_seq(e, st, 1, n, 'str'); e.memcpy_to(st, t.reg, a[1], n); put_seq(e, st, this, t, nb); return None
        if string and params.startswith('char const*, unsigned long'):
            n = norm(a[2]); t = new_seq(e, st, 1, n, 'str'); e.memcpy_to(st, t.reg, a[1], n); put_seq(e, st, this, t, nb); return None
        if string and 'basic_string_view' in params:
            pass
        raise Unsupported('constructor ' + f['dem'][:200])
    if mname in ('~vector', '~basic_string'):
        v = st.regs[this.r].cells.get(this.o)
        if v is not None and isinstance(v[1], Seq) and v[1].reg in st.regs: 
            st.wregion(v[1].reg).freed = True
        return None
    if mname in ('size', 'length'): return S().len
    if mname == 'empty':
        n = S().len; return int(n == 0) if is_conc(n) else norm(n == 0)
    if mname in ('data', 'c_str', '_M_data'): return Ptr(S().reg, 0, 0)
    if mname in ('begin', 'cbegin'): return Ptr(S().reg, 0, 0)
    if mname in ('end', 'cend'): s = S(); return Ptr(s.reg, s.len, 0)
    if mname in ('operator[]', 'at', '_M_range_check'):
        s = S(); i = norm(a[1])
        c = z3.ULT(to_bv(i, 64), to_bv(s.len, 64))
        if mname == 'operator[]':
            e.prove(st, c, 'memory-safety: index within container'); return Ptr(s.reg, i, 0)
        outs = []
        for x, tr in e.branch(st, c):
            outs.append(('ret', x, Ptr(s.reg, i, 0) if mname == 'at' else None) if tr else ('exc', x, Exc('_ZTISt12out_of_range', x.alloc('exc', size=16))))
        return Outs(outs)
    if mname in ('front',):
        s = S(); e.prove(st, to_bv(s.len, 64) != 0, 'memory-safety: front of non-empty'); return Ptr(s.reg, 0, 0)
    if mname in ('back',):
        s = S(); e.prove(st, to_bv(s.len, 64) != 0, 'memory-safety: back of non-empty'); return Ptr(s.reg, sub(s.len, 1), 0)
    if mname in ('push_back', 'emplace_back') and stride in (1, 2, 4, 8):
        s = S(); 
        if stride == 8 and not re.match(r'(unsigned )?long|double', targs(scope[-1])[0]): raise Unsupported('push_back ' + f['dem'][:150])
        w = stride * 8
        v = e.load_raw(st, a[1], stride, {'k': 'int', 'w': w, 'store': stride}) if isinstance(a[1], Ptr) else a[1]
        n = s.len; nl = add(n, 1)
        set_len(e, st, this, s, nl, nb)
        e.store_raw(st, Ptr(s.reg, n, 0), stride, v)
        return Ptr(s.reg, n, 0)
    if mname == 'pop_back':
        s = S(); e.prove(st, to_bv(s.len, 64) != 0, 'memory-safety: pop_back of non-empty'); set_len(e, st, this, s, sub(s.len, 1), nb); return None
    if mname == 'clear': set_len(e, st, this, S(), 0, nb); return None
    if mname in ('reserve', 'shrink_to_fit'): return None
    if mname == 'capacity': s = S(); c = z3.BitVec(fresh_name('cap'), 64); st.assume(z3.UGE(c, to_bv(s.len, 64))); return c
    if mname == 'resize' and stride == 1:
        s = S(); n = norm(a[1]); old = s.len
        if not string and not params.startswith('unsigned long') : raise Unsupported(f['dem'])
        fill = 0 if len(a) < 3 else (a[2] if not isinstance(a[2], Ptr) else e.rd(st, a[2], 8))
        r = st.wregion(s.reg); arr = r.arrs.get(0)
        if arr is None: arr = z3.Array(fresh_name(r.name), BV64, bvw(8))
        j = z3.BitVec(fresh_name('j'), 64)
        r.arrs[0] = z3.Lambda([j], z3.If(z3.UGE(j, to_bv(old, 64)), to_bv(fill, 8), z3.Select(arr, j)))
        st.writes.add((s.reg, 'seq', 0))
        set_len(e, st, this, s, n, nb); return None
    if mname == 'insert' and stride == 1 and not string:
        # insert(pos, first, last): only at the end
        s = S()
        if '__normal_iterator' in params or 'unsigned char' in params:
            pos, first, last = a[1], a[2], a[3]
            pos = e_iter(e, st, pos); first = e_iter(e, st, first); last = e_iter(e, st, last)
            if not e.must(st, to_bv(pos.i, 64) == to_bv(s.len, 64)): raise Unsupported('insert not at end')
            n = e.psub(last, first, st); nl = add(s.len, n)
            set_len(e, st, this, s, nl, nb)
            e.memcpy(st, Ptr(s.reg, s.len, 0), first, n)
            return Ptr(s.reg, s.len, 0)
    if mname == 'operator=':
        if '&&' in params:
            s = S(a[1]); put_seq(e, st, this, s, nb); put_seq(e, st, a[1], new_seq(e, st, stride, 0, 'moved'), nb); return this
        if 'vector' in params or 'basic_string' in params:
            s = S(a[1]); t = new_seq(e, st, stride, s.len, 'copy'); copy_region(e, st, s.reg, t.reg); put_seq(e, st, this, t, nb); return this
    if mname == 'swap':
        x, y = S(a[0]), S(a[1]); put_seq(e, st, a[0], y, nb); put_seq(e, st, a[1], x, nb); return None
    raise Unsupported(f"container method {f['dem'][:220]}")
def e_iter(e, st, p): return p
def copy_region(e, st, src, dst):
    r = st.regs[src]; w = st.wregion(dst); w.arrs = dict(r.arrs); w.cells = dict(r.cells)
    if not r.arrs and not r.cells and r.stride == 1:
        a = z3.Array(fresh_name(r.name), BV64, bvw(8)); st.wregion(src).arrs[0] = a; st.wregion(dst).arrs[0] = a
def memcpy_to(e, st, reg, src, n):
    if is_conc(n) and n <= 256:
        for k in range(n): e.store_raw(st, Ptr(reg, k, 0), 1, e.load_raw(st, e.padd(st, src, k), 1, {'k': 'int', 'w': 8, 'store': 1}))
    else: e.memcpy(st, Ptr(reg, 0, 0), src, n)
Engine.memcpy_to = memcpy_to

def opaque_string(e, st, a, f, ins):
    """function returning std::string by value (sret): arbitrary string, no other effect"""
    p = a[0]
    n = z3.BitVec(fresh_name('slen'), 64); st.assume(z3.ULT(n, 1 << 30))
    put_seq(e, st, p, new_seq(e, st, 1, n, 'str'), 32)
    return None

def fmt_any(e, st, a, f, ins):
    """formatting helpers: no effect on program state except their (opaque) result"""
    return fresh_ret(e, ins)
def fresh_ret(e, ins):
    def fr(t):
        T = e.T[t]
        if T['k'] == 'void': return None
        if T['k'] == 'struct': return [fr(x[1]) for x in T['f']]
        return UNDEF
    return fr(ins['t'])

VEC = r'(^|[ &*])std::vector<(?P<T>.*)>::(?!.*::(operator\(\)|_Guard))'
def install(e, vector_types=('unsigned char',), strings=True):
    for t in vector_types:
        q = re.escape(t)
        e.model(r'^(?:[^(]*[ &*])?std::vector<' + q + r', std::allocator<' + q + r'>>::[~\w]+(<[^()]*>)?\(|^(?:[^(]*[ &*])?std::vector<' + q + r', std::allocator<' + q + r'>>::operator[\[\]=]+\(', vec_model)
    if strings:
        SM = lambda e, st, a, f, ins: vec_model(e, st, a, f, ins, string=True)
        e.model(r'^(?:[^(]*[ &*])?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::[~\w]+(<[^()]*>)?\((?!.*_Guard)', SM)
        e.model(r'^(?:[^(]*[ &*])?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::operator[\[\]=]+\(', SM)
        e.model(r'^std::__cxx11::to_string\(|^std::__cxx11::basic_string<char.*> (std::operator\+|fmt::)', opaque_string, front=True)
        e.model(r'^([^(]* )?fmt::v\d+::', fmt_any)
        e.model(r'^([^(]* )?fmt::v\d+::v?format(\[abi:\w+\])?[<(]', opaque_string, front=True)
        e.model(r'^std::allocator<.*>::~?allocator\(|^std::__new_allocator<.*>::~?__new_allocator\(', lambda e, st, a, f, ins: None)
