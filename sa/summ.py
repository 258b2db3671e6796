"""Summaries of core / alloc / subtle functions (trusted: the Rust standard library and subtle behave
as documented).  Everything in halo2curves itself is interpreted."""
import re
from engine import En, Ptr, G, B, FE, FnV, Opq, UNDEF, VecV, Diverge, Unsupported

SKIP_SUFFIX = ('::precondition_check', )
PANICS = {
    'core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::panic_fmt', 'core::panicking::panic_nounwind',
    'core::panicking::panic_nounwind_fmt', 'core::panicking::panic_explicit', 'core::panicking::panic_display',
    'core::panicking::panic_str_2015', 'core::panicking::unreachable_display',
    'std::result::unwrap_failed', 'core::result::unwrap_failed', 'core::option::unwrap_failed', 'std::option::unwrap_failed',
    'core::option::expect_failed', 'std::option::expect_failed', 'core::slice::index::slice_index_fail',
    'core::panicking::assert_failed', 'core::panicking::assert_failed_inner',
    'core::slice::copy_from_slice_impl::len_mismatch_fail', 'alloc::raw_vec::handle_error', 'std::alloc::handle_alloc_error',
    'core::panicking::panic_bounds_check', 'core::str::slice_error_fail', 'std::process::abort',
    'core::slice::index::slice_start_index_len_fail', 'core::slice::index::slice_end_index_len_fail',
    'core::slice::index::slice_index_order_fail', 'std::rt::begin_panic',
}


def base_name(n):
    """drop generic arguments"""
    out = []
    d = 0
    for i, c in enumerate(n):
        if c == '<':
            d += 1
        elif c == '>' and n[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('::::', '::').rstrip(':')


def const_str(eng, v):
    try:
        if isinstance(v, Ptr) and isinstance(v.meta, int):
            return bytes(eng.load_slice(v)).decode()
    except Exception:
        pass
    return ''


def panic(eng, fn, args):
    msg = fn.defn
    for a in args:
        s = const_str(eng, a)
        if s:
            msg += ': ' + s
    eng.event('panic', eng.pc, msg)
    raise Diverge(msg)


def ident(eng, fn, args):
    return args[0]


def unit(eng, fn, args):
    return ()


def choice_bit(v):
    while isinstance(v, tuple):
        v = v[0]
    return v


def install(eng):
    S = eng.summaries
    ld = eng.load
    T = eng.P.types
    D = eng.bdd
    for p in PANICS:
        S[p] = panic
    PS = eng.prefix_summaries
    PS.append((lambda f: f.name.endswith(SKIP_SUFFIX), unit))
    PS.append((lambda f: f.defn.startswith(('core::panicking::', 'std::panicking::', 'std::rt::panic', 'core::option::expect',
                                              'core::slice::index::slice_', 'std::slice::index::slice_')) and f.defn.split('::')[-1] != 'get'
               and (f.defn.endswith('_fail') or 'panic' in f.defn or 'assert' in f.defn or f.defn.endswith('_failed')), panic))

    # formatting only happens on panic paths and in Debug impls
    PS.append((lambda f: f.defn.startswith(('std::fmt::Arguments', 'core::fmt::', 'std::fmt::')), lambda e, f, a: Opq('fmt')))

    PS.append((lambda f: re.fullmatch(r'(std::io::Error|alloc::io::error::<impl std::io::Error>|std::io::error::Error)::(new|other)', f.defn) is not None, lambda e, f, a: Opq('io::Error')))

    # ---- subtle -------------------------------------------------------------------------------
    S['<subtle::Choice as std::convert::From<u8>>::from'] = lambda e, f, a: (a[0],)
    def not_(e, f, a):
        return (e.unop_bool_not(choice_bit(a[0])),)
    S['<subtle::Choice as std::ops::Not>::not'] = not_
    S['subtle::<impl std::convert::From<subtle::Choice> for bool>::from'] = lambda e, f, a: choice_bit(a[0])
    S['subtle::Choice::unwrap_u8'] = lambda e, f, a: choice_bit(ld(a[0]))
    S['subtle::black_box'] = ident
    def bx(op):
        return lambda e, f, a: (e.binop(op, choice_bit(a[0]), choice_bit(a[1]), None, None),)
    S['<subtle::Choice as std::ops::BitAnd>::bitand'] = bx('BitAnd')
    S['<subtle::Choice as std::ops::BitOr>::bitor'] = bx('BitOr')
    S['<subtle::Choice as std::ops::BitXor>::bitxor'] = bx('BitXor')
    for ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
        t = None
        for x in T:
            if x.s == ty:
                t = x
        S[f'<{ty} as subtle::ConstantTimeEq>::ct_eq'] = lambda e, f, a, t=t: (e.binop('Eq', ld(a[0]), ld(a[1]), t, t),)
        S[f'<{ty} as subtle::ConditionallySelectable>::conditional_select'] = \
            lambda e, f, a: e.ite(choice_bit(a[2]), ld(a[1]), ld(a[0]))
        def cas(e, f, a):
            e.store(a[0], e.ite(choice_bit(a[2]), ld(a[1]), ld(a[0])))
            return ()
        S[f'<{ty} as subtle::ConditionallySelectable>::conditional_assign'] = cas
    S['<subtle::Choice as subtle::ConstantTimeEq>::ct_eq'] = lambda e, f, a: (e.binop('Eq', choice_bit(ld(a[0])), choice_bit(ld(a[1])), None, None),)
    S['<subtle::Choice as subtle::ConditionallySelectable>::conditional_select'] = \
        lambda e, f, a: (e.ite(choice_bit(a[2]), choice_bit(ld(a[1])), choice_bit(ld(a[0]))),)

    # ---- intrinsics ---------------------------------------------------------------------------
    I = {}
    def intr(name):
        def deco(f):
            I[name] = f
            return f
        return deco
    for n in ('assert_inhabited', 'cold_path', 'assert_zero_valid', 'assert_mem_uninitialized_valid'):
        I[n] = unit
    for n in ('black_box', 'likely', 'unlikely', 'volatile_load_', 'select_unpredictable_'):
        I[n] = ident
    I['volatile_load'] = lambda e, f, a: ld(a[0])
    I['unaligned_volatile_load'] = I['volatile_load']
    @intr('ctpop')
    def _(e, f, a):
        if type(a[0]) is int:
            return bin(a[0]).count('1')
        raise Unsupported('ctpop')
    def _bits(f):
        m = re.search(r'<(\w+)>$', f.name)
        for x in T:
            if x.s == m.group(1):
                return x.bits
    @intr('cttz')
    def _(e, f, a):
        b = _bits(f)
        if type(a[0]) is int:
            return (a[0] & -a[0]).bit_length() - 1 if a[0] else b
        if hasattr(e.dom, 'tz'):
            return e.dom.tz(a[0], b)
        raise Unsupported('cttz')
    I['cttz_nonzero'] = I['cttz']
    @intr('ctlz')
    def _(e, f, a):
        b = _bits(f)
        if type(a[0]) is int:
            return b - a[0].bit_length()
        raise Unsupported('ctlz')
    I['ctlz_nonzero'] = I['ctlz']
    @intr('bswap')
    def _(e, f, a):
        b = _bits(f)
        if type(a[0]) is int:
            return int.from_bytes(a[0].to_bytes(b // 8, 'little'), 'big')
        v = e.int_to_bytes(a[0], b // 8)
        return e.bytes_to_int(tuple(reversed(v)), None)
    @intr('raw_eq')
    def _(e, f, a):
        x, y = e.leaves(ld(a[0])), e.leaves(ld(a[1]))
        r = 1
        for p, q in zip(x, y):
            r = e.binop('BitAnd', r, e.binop('Eq', p, q, None, None), None, None)
        return r
    @intr('compare_bytes')
    def _(e, f, a):
        n = a[2]
        if n == 0:
            return 0
        if not isinstance(n, int):
            raise Unsupported('compare_bytes length')
        x = [ld(e.ptr_off(a[0], i)) for i in range(n)]
        y = [ld(e.ptr_off(a[1], i)) for i in range(n)]
        if all(type(v) is int for v in x + y):
            return (bytes(x) > bytes(y)) - (bytes(x) < bytes(y))
        return Opq('memcmp', tuple(x), tuple(y))
    @intr('ptr_offset_from_unsigned')
    def _(e, f, a):
        def g(p, q):
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.cell == q.cell:
                x, y = e.ptr_pos(p), e.ptr_pos(q)
                d = e.binop('Sub', x[1], y[1], e.usize, e.usize)
                if isinstance(p.path[-1] if p.path else None, type(None)) or True:
                    from engine import Sub as SubV
                    if p.path and isinstance(p.path[-1], SubV):
                        return d // p.path[-1].n
                    if q.path and isinstance(q.path[-1], SubV):
                        return d // q.path[-1].n
                return d
            raise Unsupported(f'pointer difference {p!r} {q!r}')
        return e.lift(g, a[0], a[1])
    I['ptr_offset_from'] = I['ptr_offset_from_unsigned']
    @intr('write_bytes')
    def _(e, f, a):
        p, v, n = a
        if n == 0:
            return ()
        if isinstance(n, int) and v == 0:
            for i in range(n):
                q = e.ptr_off(p, i)
                old = ld(q)
                e.store(q, e.zero_like(old))
            return ()
        raise Unsupported('write_bytes')
    @intr('size_of')
    def _(e, f, a):
        raise Unsupported('size_of')
    def arith(op):
        return lambda e, f, a: e.binop(op, a[0], a[1], e.ty_named(re.search(r'<(\w+)>?', f.name).group(1)) if re.search(r'<(\w+)', f.name) else None, None)
    @intr('saturating_sub')
    def _(e, f, a):
        if type(a[0]) is int and type(a[1]) is int:
            return max(a[0] - a[1], 0)
        raise Unsupported('saturating_sub')
    @intr('saturating_add')
    def _(e, f, a):
        if type(a[0]) is int and type(a[1]) is int:
            return min(a[0] + a[1], (1 << (_bits(f) or 64)) - 1)
        raise Unsupported('saturating_add')
    @intr('rotate_left')
    def _(e, f, a):
        b = _bits(f) or 64
        if type(a[0]) is int and type(a[1]) is int:
            k = a[1] % b
            return ((a[0] << k) | (a[0] >> (b - k))) & ((1 << b) - 1)
        raise Unsupported('rotate')
    @intr('three_way_compare')
    def _(e, f, a):
        x, y = a
        if type(x) is int and type(y) is int:
            return En(0 if x < y else 1 if x == y else 2, ())
        return NotImplemented
    @intr('needs_drop')
    def _(e, f, a): return 0
    def intrinsic(e, f, a):
        return I[f.intr](e, f, a)
    PS.append((lambda f: f.intr in I, intrinsic))
    def intr_ptr(e, f, a):
        return e.binop('Offset', a[0], a[1], None, None)
    PS.append((lambda f: f.intr in ('offset', 'arith_offset') and f.raw is None, intr_ptr))

    # ---- alloc: a heap buffer is a fresh cell holding an array of its capacity ------------------
    def buf(e, n, fill=UNDEF):
        if type(n) is not int or n > 1 << 16:
            raise Unsupported(f'allocation of {n!r} elements'[:80])
        return Ptr(e.new_cell((fill,) * n if n else ((),)), (0,))
    S['alloc::raw_vec::RawVecInner::with_capacity_zeroed_in'] = lambda e, f, a: (buf(e, a[0], 0), a[0], ())
    S['alloc::raw_vec::RawVecInner::with_capacity_in'] = lambda e, f, a: (buf(e, a[0]), a[0], ())
    S['alloc::raw_vec::RawVecInner::try_allocate_in'] = lambda e, f, a: En(0, ((buf(e, a[0], 0 if isinstance(a[1], En) and a[1].v == 1 else UNDEF), a[0], ()),))
    S['alloc::raw_vec::RawVecInner::new_in'] = lambda e, f, a: (buf(e, 0), 0, ())
    def grow(e, self, n, exact=False):
        p, cap, al = ld(self)
        if type(n) is not int:
            raise Unsupported('Vec growth by an undetermined amount')
        n = n if exact else max(cap * 2, n, 4)
        q = buf(e, n)
        for i in range(cap):
            e.store(e.ptr_off(q, i), ld(e.ptr_off(p, i)))
        e.store(self, (q, n, al))
    def reserve(e, f, a):
        cap = ld(a[0])[1]
        n = e.binop('Add', a[1], a[2], e.usize, e.usize)
        if type(n) is not int or n > cap:
            grow(e, a[0], n)
        return ()
    S['alloc::raw_vec::RawVecInner::reserve'] = reserve
    S['alloc::raw_vec::RawVecInner::reserve_exact'] = reserve
    PS.append((lambda f: f.name.startswith('alloc::raw_vec::RawVecInner') and 'do_reserve_and_handle' in f.name, reserve))
    def grow_am(e, f, a):
        grow(e, a[0], e.binop('Add', a[1], a[2], e.usize, e.usize))
        return En(0, ((),))
    S['alloc::raw_vec::RawVecInner::grow_amortized'] = grow_am
    S['alloc::raw_vec::RawVecInner::grow_exact'] = grow_am
    S['alloc::raw_vec::RawVecInner::deallocate'] = unit
    def grow_one(e, f, a):
        grow(e, a[0], ld(a[0])[1] + 1)
        return ()
    S['alloc::raw_vec::RawVecInner::grow_one'] = grow_one

    PS.append((lambda f: f.defn in ('std::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::new'), lambda e, f, a: Ptr(e.new_cell(a[0]), ())))

    # ---- memory -------------------------------------------------------------------------------
    PS.append((lambda f: base_name(f.name) in ('std::ptr::read_volatile', 'core::ptr::read_volatile'), lambda e, f, a: ld(a[0])))
    def swap(e, f, a):
        x, y = ld(a[0]), ld(a[1])
        e.store(a[0], y)
        e.store(a[1], x)
        return ()
    PS.append((lambda f: base_name(f.name) in ('std::mem::swap', 'core::mem::swap', 'std::ptr::swap', 'std::intrinsics::typed_swap_nonoverlapping', 'core::intrinsics::typed_swap_nonoverlapping'), swap))
    def replace(e, f, a):
        x = ld(a[0])
        e.store(a[0], a[1])
        return x
    PS.append((lambda f: base_name(f.name) in ('std::mem::replace', 'core::mem::replace'), replace))
    def vec_to_array(e, f, a):
        (((p, cap, _), _), n) = a[0]
        m = re.search(r'for \[.*; (\d+)\]>::try_from$', f.name)
        if type(n) is not int:
            raise Unsupported('vector of undetermined length')
        if n != int(m.group(1)):
            return En(1, (a[0],))
        return En(0, (tuple(ld(e.ptr_off(p, i)) for i in range(n)),))
    PS.append((lambda f: re.match(r'(?:std|alloc)::vec::<impl std::convert::TryFrom<std::vec::Vec<.*>> for \[.*; \d+\]>::try_from$', f.name) is not None, vec_to_array))
    def clone_arr(e, f, a):
        return ld(a[0])
    PS.append((lambda f: re.match(r'^<\[.*\] as std::clone::Clone>::clone$|^core::array::<impl std::clone::Clone for \[.*\]>::clone$', f.name) is not None and 'Vec' not in f.name, clone_arr))
    # length-checked copies
    def copy_from_slice(e, f, a):
        d, s = a[0], a[1]
        def g(d, s):
            if isinstance(d.meta, int) and isinstance(s.meta, int):
                if d.meta != s.meta:
                    e.event('panic', e.pc, 'copy_from_slice: length mismatch')
                    raise Diverge('copy_from_slice')
                vals = e.load_slice(s)
                for i, v in enumerate(vals):
                    e.store(e.ptr_off(Ptr(d.cell, d.path), i), v)
                return ()
            raise Unsupported('copy_from_slice lengths')
        return g(d, s) if isinstance(d, Ptr) and isinstance(s, Ptr) else e.lift(g, d, s)
    PS.append((lambda f: base_name(f.name).endswith('copy_from_slice') and 'slice' in f.name and f.crate != 'halo2curves', copy_from_slice))


def value_of(eng, x):
    return eng.load(x)
